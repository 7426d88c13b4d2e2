"""Obligations, findings, evidence and exit codes."""
import ast
import ctypes
import json
import os
import threading
import time
import traceback

from .interp import AbsRaise, GiveUp
from .project import AnalysisBroken, Project
from .terms import TooComplex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"


class TimeUp(BaseException):
    """an obligation used up its share of time (it stays undecided)"""


class Watch:
    """ends an obligation of the analysing thread that runs for too long (processor time, and wall time as a backstop)"""

    def __init__(self):
        self.lock = threading.Lock()
        self.until = None
        self.thread = None
        self.start = time.process_time(), time.time()
        self.one, self.total, self.wall = 60, 400, 600

    def arm(self, thorough=False):
        k = 5 if thorough else 1
        now = time.process_time()
        left = self.start[0] + self.total * k - now
        if time.time() - self.start[1] > self.wall * k:
            left = 0
        with self.lock:
            self.thread = threading.get_ident()
            self.until = now + max(2, min(self.one * k, left)), time.time() + self.wall * k

    def disarm(self):
        with self.lock:
            self.until = None

    def check(self):
        with self.lock:
            if self.until is not None and (time.process_time() > self.until[0] or time.time() > self.until[1]):
                self.until = None
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.thread), ctypes.py_object(TimeUp))


WATCH = Watch()


class Res:
    def __init__(self, status, detail="", where=""):
        self.status, self.detail, self.where = status, detail, where


def holds(detail="", where=""):
    return Res(HOLDS, detail, where)


def violated(detail, where=""):
    return Res(VIOLATED, detail, where)


def undecided(detail, where=""):
    return Res(UNDECIDED, detail, where)


class Report:
    def __init__(self, pid, project, tier="quick"):
        self.pid, self.p, self.tier = pid, project, tier
        self.obs = []
        self.functions = set()
        self.cases = 0
        self.callsites = 0
        self.rules = {}
        self.controls = [0, 0]   # fired, total
        self.interps = []        # interpreters whose visited functions are still to be reported
        self.total = False       # an unconditional raise on the (fully concrete) analysed configuration is a violation

    def saw(self, interp):
        self.functions |= interp.visited
        self.callsites += interp.callsites

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, fn, where=""):
        """decide one obligation; fn returns a Res (or None = holds)"""
        t = time.time()
        try:
            WATCH.arm(self.tier == "thorough")
            try:
                r = fn()
            finally:
                WATCH.disarm()
            while self.interps:
                self.saw(self.interps.pop())
            if r is None:
                r = holds()
        except AnalysisBroken as e:
            r = undecided(f"anchor not found: {e}")
        except GiveUp as e:
            r = undecided(f"construct outside the analysed subset: {e}")
        except AbsRaise as e:
            r = (violated if e.sure and self.total else undecided)(f"code raises {e.exc} on this path {e.where}")
        except TooComplex as e:
            r = undecided(f"too complex: {e}")
        except RecursionError:
            r = undecided("recursion limit")
        except TimeUp:
            r = undecided("time budget used up")
        except Exception as e:  # an engine failure never becomes an alarm
            tb = traceback.format_exc().strip().splitlines()
            r = undecided(f"engine: {type(e).__name__}: {e} @ {tb[-3].strip() if len(tb) > 2 else ''}")
        if not r.where:
            r.where = where
        self.obs.append((rule, key, r, time.time() - t))
        return r

    def control(self, fn):
        """positive control: a deliberately wrong requirement must be reported as violated"""
        try:
            WATCH.arm(self.tier == "thorough")
            try:
                r = fn()
            finally:
                WATCH.disarm()
        except (Exception, TimeUp):
            return
        if r.status == UNDECIDED:
            return
        self.controls[1] += 1
        self.controls[0] += r.status == VIOLATED


NARROW = {f"{k}{w}" for k in ("int", "uint", "float") for w in (8, 16)} | {"bfloat16", "half", "short", "ushort", "byte", "ubyte"}
DTYPE_OWNERS = {"jnp", "np", "onp", "numpy", "jax", "DeviceArray"}


def narrow_types(rep):
    """no analysed function converts to a type of fewer than 32 bits (counts would wrap, observations lose digits)"""
    if rep.pid not in STATEFUL or not rep.functions:
        return
    rep.rule("width", "no value, count or state is converted to a type of fewer than 32 bits (counts would wrap around, observations would lose digits)")
    files = {m.rel: m for m in rep.p.modules.values()}
    done = {}

    def scan(rel):
        out = []
        m = files.get(rel)
        if m is None:
            return out
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            # a type given to a conversion: f(..., dtype=T), f(..., T), x.astype(T), T(x)
            for x in [n.func, *n.args, *[k.value for k in n.keywords]]:
                nm = x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and m.bind.get(x.value.id, ("",))[0] in ("import", "from") else m.bind[x.id][2] if isinstance(x, ast.Name) and m.bind.get(x.id, ("",))[0] == "from" else None
                if x is not n.func and isinstance(x, ast.Constant) and isinstance(x.value, str) and (nm is None) and any(k.value is x and k.arg == "dtype" for k in n.keywords):
                    nm = x.value.lstrip("<>=|")
                if nm in NARROW:
                    out.append((n.lineno, nm))
        return out

    def chk():
        bad = []
        for rel in sorted({a for a, _ in rep.functions}):
            if rel.startswith("src/wax/") and rel.count("/modules/"):
                done[rel] = 1
                bad += [f"{rel}:{line} converts to {nm}" for line, nm in scan(rel)]
        return violated("; ".join(bad)) if bad else holds(f"{len(done)} files")

    rep.ob("width", "analysed modules", chk)


STATEFUL = {"W10", "W11", "W12", "W13", "W14", "W15", "W16", "W20", "W21", "W22", "W30", "W31", "W32", "W33"}


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            parts = line[len("finding: "):].split(None, 2)
            pid = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            out[(pid, key)] = parts[2] if len(parts) > 2 else ""
    return out


def run_check(pid, tier, root="/repo", quiet=False, overlay=None):
    from . import rules as R

    t0 = time.time()
    WATCH.start = time.process_time(), t0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = R.REGISTRY.get(pid)
    if spec is None:
        print(f"unknown property {pid}")
        return 2
    known = load_known()
    try:
        proj = Project(root, overlay)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    rep = Report(pid, proj, tier)
    try:
        spec(rep)
    except AnalysisBroken as e:
        # the tree cannot be analysed at all (an anchor of the public interface is gone or a file does not parse)
        rep.rule("anchor", "the public definitions named by the property exist in the source")
        rep.ob("anchor", str(e), lambda: undecided(f"anchor not found: {e}"))
    narrow_types(rep)
    n = {HOLDS: 0, VIOLATED: 0, UNDECIDED: 0}
    viol = []
    for rule, key, r, dt in rep.obs:
        n[r.status] += 1
        if r.status == VIOLATED:
            viol.append((rule, key, r))
    new = []
    kf = []
    for rule, key, r in viol:
        k = (pid, f"{rule}:{key}".replace(" ", "_"))
        if k in known:
            kf.append((k, r))
        else:
            new.append((rule, key, r))
    obs = [
        {"rule": a, "instance": b, "status": r.status, "where": r.where, "detail": r.detail[:2000]}
        for a, b, r, dt in rep.obs
    ]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo's source on this run: each obligation is one instance of a rule "
            "decided on the abstract-interpreted functions, syntax trees or call graph named below; nothing of the "
            "repository is executed. 'undecided' obligations are constructs outside the analysed subset and raise no alarm.",
            "rules": rep.rules,
            "obligations": len(rep.obs),
            "discharged": n[HOLDS],
            "undecided": n[UNDECIDED],
            "known_findings": [f"{k[1]}" for k, _ in kf],
            "case_splits": rep.cases,
            "call_sites": rep.callsites,
            "functions_analysed": sorted(f"{a}:{b}" for a, b in rep.functions),
            "files_parsed": len(proj.files),
            "positive_controls": {"fired": rep.controls[0], "total": rep.controls[1]},
            "samples": obs[:12],
            "undecided_list": [o for o in obs if o["status"] == UNDECIDED][:40],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    if not overlay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k, r in kf:
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if rep.controls[1] and rep.controls[0] == 0 and n[UNDECIDED] < len(rep.obs):
        print(f"ANALYSIS-BROKEN property={pid} no positive control fired: the judge is insensitive")
        return 2
    if rep.obs and n[UNDECIDED] == len(rep.obs):
        print(f"UNDECIDED property={pid} every obligation is outside the analysed subset; nothing was decided")
    if not quiet:
        print(
            f"{pid}: {len(rep.obs)} obligations, {n[HOLDS]} hold, {n[UNDECIDED]} undecided, "
            f"{len(kf)} known, {len(new)} violated; {len(rep.functions)} functions, {rep.cases} cases, "
            f"{time.time() - t0:.1f}s"
        )
    if new:
        replay = os.path.join(VERIF, "evidence", f"{pid}.violation.txt")
        with open(replay, "w") as f:
            for rule, key, r in new:
                f.write(f"[{rule}] {key}\n  where: {r.where}\n  rule: {rep.rules.get(rule, '')}\n  {r.detail}\n\n")
        for rule, key, r in new:
            print(f"  [{rule}] {key} at {r.where}: {r.detail[:1500]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0
