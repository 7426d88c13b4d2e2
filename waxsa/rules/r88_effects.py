"""W88: public functions leave their arguments and shared containers alone."""
import ast
import os

from ..effects import Effects, owner_is_public, public
from ..project import Module
from ..report import holds, violated
from . import prop

DEF = (ast.FunctionDef, ast.AsyncFunctionDef)
# what is handed over in order to be drawn on, or restored before the call ends
DRAWN = {"fig", "figure", "ax", "axes", "plot", "source", "canvas"}
RESTORED = {("create_flow_animation", "tracker")}
REGISTERED = {"Callback.active"}


API = {x.strip() for x in open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "public_api.txt")) if x.strip()}


def called_names(m):
    """names called inside a module, as functions or methods of self"""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                out.add(n.func.id)
            elif isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
    return out


def judged(m, q, names):
    """public functions of the documented interface, and new ones nobody in their module calls (those that are called are helpers: their effects count at the callers)"""
    return public(q) and (f"{m.name}.{q}" in API or q.split(".")[-1] not in names)


def outer_functions(p):
    for m, q, f, c in p.functions():
        n = f._parent
        while n is not None and not isinstance(n, DEF + (ast.Lambda,)):
            n = n._parent
        if n is None:
            yield m, q, f


def arguments(E, m, q, f, open_=True):
    ch, _ = E.summary(m, f)
    bad = []
    for (kind, o), (node, text) in ch.items():
        line = getattr(node, "lineno", f.lineno)
        if kind == "p":
            name = o.split(".")[-1]
            if name in DRAWN or (q.split(".")[-1], name) in RESTORED:
                continue
            if "." not in o and open_:
                bad.append(f"{m.rel}:{line}: argument {name} of {q} is changed by {text}")
            elif "." in o and open_ and owner_is_public(f, o):
                bad.append(f"{m.rel}:{line}: argument {name} of the returned {'.'.join(o.split('.')[:-1])} is changed by {text}")
            elif "." not in o and mutable_default(f, name):
                bad.append(f"{m.rel}:{line}: the default value of {name} of {q} is changed by {text}")
        elif kind == "f":
            bad.append(f"{m.rel}:{line}: field {o}, given to the constructor, is changed by {text}")
    return violated("; ".join(bad[:3])) if bad else holds()


def shared(E, m, q, f):
    ch, _ = E.summary(m, f)
    bad = [f"{m.rel}:{getattr(n, 'lineno', 0)}: {q} changes the shared {o} by {t}" for (k, o), (n, t) in ch.items() if k == "g" and o not in REGISTERED]
    return violated("; ".join(bad[:3])) if bad else holds()




def mutable_default(f, name):
    a = f.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = d.get(name)
    return isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set")


SAMPLE = '''
CACHE = {}
def lookup(key, options):
    opts = dict(options)
    opts["seen"] = True
    options["inner"].pop("x")
    CACHE[key] = opts
    return opts
'''


@prop("W88")
def effects(R):
    p = R.p
    R.rule("arguments", "no public function or method, and no function it returns, assigns items or attributes of, or calls a container-changing method on, an object reachable from its arguments (its own object excepted); composed over calls inside the package")
    R.rule("shared", "no function changes a module-level or class-level container or rebinds a global (the registered callbacks excepted)")
    E = Effects(p)
    names = {}
    for m, q, f in outer_functions(p):
        w = f"{m.rel}:{f.lineno}:{q}"
        R.functions.add((m.rel, q))
        if m.name not in names:
            names[m.name] = called_names(m)
        if judged(m, q, names[m.name]) or mutable_any(f):
            R.ob("arguments", f"{m.name}.{q}", lambda: arguments(E, m, q, f, judged(m, q, names[m.name])), w)
        R.ob("shared", f"{m.name}.{q}", lambda: shared(E, m, q, f), w)
    R.callsites += E.sites
    t = ast.parse(SAMPLE)
    s = Module("sample", "sample.py", t, SAMPLE, False)
    s.rel = "sample.py"
    for a in ast.walk(t):
        a._mod = s
        for b in ast.iter_child_nodes(a):
            b._parent = a
    t._parent = None
    g = next(x for x in t.body if isinstance(x, DEF))
    R.control(lambda: arguments(E, s, "lookup", g))
    R.control(lambda: shared(E, s, "lookup", g))


def mutable_any(f):
    return any(mutable_default(f, x.arg) for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs)
