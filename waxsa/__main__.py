import os
import sys

sys.setrecursionlimit(20000)
from .report import WATCH, run_check


def main():
    a = sys.argv[1:]
    root = os.environ.get("WAXSA_ROOT", "/repo")
    if a and a[0] == "check":
        tier = "thorough" if "--thorough" in a else "quick"
        ids = [x for x in a[1:] if not x.startswith("-")]
        rc = 0
        for i in ids:
            rc = max(rc, run_check(i, tier, root))
        return rc
    if a and a[0] == "all":
        from . import rules as R

        tier = "thorough" if "--thorough" in a else "quick"
        bad = []
        for i in sorted(R.REGISTRY):
            rc = run_check(i, tier, root)
            if rc:
                bad.append((i, rc))
        print("nonzero:", bad)
        return 1 if bad else 0
    if a and a[0] == "show":
        import json

        from . import rules as R
        from .project import Project
        from .report import Report, narrow_types

        for i in a[1:]:
            rep = Report(i, Project(root))
            R.REGISTRY[i](rep)
            narrow_types(rep)
            for rule, key, r, dt in rep.obs:
                print(f"{r.status:9} {dt:6.2f}s [{rule}] {key} {r.where} {r.detail[:700]}")
        return 0
    print("usage: python3 -m waxsa check ID... [--thorough] | all | show ID")
    return 2


import threading

threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: rc.append(main()))
t.start()
while t.is_alive():
    t.join(0.5)
    WATCH.check()
sys.stdout.flush()
os._exit(rc[0] if rc else 3)
