REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f

    return deco


import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith(".py") and _f != "__init__.py":
        importlib.import_module("." + _f[:-3], __name__)
