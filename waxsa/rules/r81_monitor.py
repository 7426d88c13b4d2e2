"""Debugger, profiler and memory tracker: transparency of the decorators, what is recorded when, and the summaries."""
import math
from fractions import Fraction

from . import prop
from ..interp import AbsRaise, Arr, GiveUp, NTCls, PDict, PList, Splat, Tup
from ..judge import *
from ..npmode import NpInterp
from ..terms import *
from .r10_windows import where_
from .r46_patterns import lift

DB = "wax.flax.debug.debugger."
PR = "wax.flax.debug.profiler."
MT = "wax.flax.debug.memory_tracker."
app = lambda f, *a: mk("app", f, *a)


def add(*a):
    r = a[0]
    for x in a[1:]:
        r = mk("add", r, x)
    return r


MB = 1024 * 1024


class Lab:
    """an interpreter with a clock (advanced only by the monitored function) and a process whose memory is given"""

    def __init__(self, R, cls=None):
        self.R = R
        self.I, self.st = (cls or Interp)(R.p), S()
        self.I.scalars = self.I.concrete = self.I.exact_unpack = True
        R.interps.append(self.I)
        self.now = [sym("t0")]
        self.rss = [const(0)]
        clock = lambda I, a, k, s: add(*self.now)
        for n in ("time.time", "time.perf_counter", "time.monotonic"):
            self.I.handlers[n] = clock
        proc = Tup([Py("memory_info", lambda I, a, k, s: Tup([self.rss[-1]], "namedtuple", ("rss",))), Py("cpu_percent", lambda I, a, k, s: const(0))], "namedtuple", ("memory_info", "cpu_percent"))
        vm = Tup([const(8 * MB), const(4 * MB)], "namedtuple", ("total", "available"))
        self.I.handlers.update({
            "psutil.Process": lambda I, a, k, s: proc, "psutil.virtual_memory": lambda I, a, k, s: vm,
            "os.getpid": lambda I, a, k, s: const(1), "traceback.format_stack": lambda I, a, k, s: NONE,
            "threading.active_count": lambda I, a, k, s: const(1), "builtins.input": lambda I, a, k, s: const("c"),
            "tracemalloc.start": lambda I, a, k, s: NONE, "tracemalloc.get_traced_memory": lambda I, a, k, s: Tup([ZERO, ZERO]),
            "gc.get_objects": lambda I, a, k, s: Tup([]), "gc.get_stats": lambda I, a, k, s: Tup([]),
        })

    def new(self, d, *a, **kw):
        mod, node = self.R.p.need(d)
        return self.I.call(self.I.global_value(mod, node.name), [self.lift(x) for x in a], {k: self.lift(v) for k, v in kw.items()}, None, self.st)

    def lift(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return NONE
        if isinstance(v, Fraction):
            return const(v)
        return lift(self.I, self.st, v)

    def get(self, o, *path):
        for x in path:
            o = self.I.getattr(o, x, self.st)
        return o

    def do(self, o, name, *a, **kw):
        return self.I.call(self.get(o, name), [self.lift(x) for x in a], {k: self.lift(v) for k, v in kw.items()}, None, self.st)

    def call(self, f, *a, **kw):
        return self.I.call(f, [self.lift(x) for x in a], {k: self.lift(v) for k, v in kw.items()}, None, self.st)

    def items(self, v):
        return self.I.iter_items(v, self.st)

    def entries(self, v):
        p = self.I.get(self.st, v)
        return {(k.args[0] if isinstance(k, T) else k): y for k, y in p.d.items()}

    def same(self, got, want, label):
        return eq_struct(self.R, self.I, self.st, got, want, (), label)

    def same_tree(self, got, want, label):
        """want: nested dict of terms (dicts by key)"""
        if isinstance(want, dict):
            e = self.entries(got)
            miss = [k for k in want if k not in e]
            if miss:
                return violated(f"{label} has no entry {miss[0]!r}")
            return worst([self.same_tree(e[k], w, f"{label}[{k}]") for k, w in want.items()])
        return self.same(got, want, label)

    def streaming(self, fails_at=None, single=False, apply=True, name=None):
        """a stateful function pair; calls are logged, apply takes the symbolic time dt<n>"""
        log = []

        def init(I, a, k, s):
            log.append(("init", tuple(I.term(x, s) for x in a)))
            return app("INIT", *[I.term(x, s) for x in a])

        def ap(I, a, k, s):
            n = sum(1 for q in log if q[0] == "apply")
            t = [I.term(x, s) for x in a] + [y for q in sorted(k) for y in (const(q), I.term(k[q], s))]
            log.append(("apply", tuple(t)))
            self.now.append(sym(f"dt{n}"))
            self.rss.append(sym(f"rss{n}"))
            if fails_at == n:
                raise AbsRaise("ValueError", sure=True)
            if single == 3:
                return Tup([app("OUT", const(n), *t), app("NEW", const(n), *t), app("AUX", const(n), *t)])
            if single:
                return app("OUT", const(n), *t)
            return Tup([app("OUT", const(n), *t), app("NEW", const(n), *t)])

        def direct(I, a, k, s):
            log.append(("call", tuple(I.term(x, s) for x in a)))
            return app("CALL", *[I.term(x, s) for x in a])

        at = {"init": Py("init", init)}
        if apply:
            at["apply"] = Py("apply", ap)
        if name:
            at["__name__"] = const(name)
        return Py("streaming", direct, at), log


def num(t):
    """Python value of a closed number or truth value"""
    if isinstance(t, T) and t.op == "bool":
        return t.args[0]
    c = const_of(t)
    return None if c is None else c.args[0]


A = lambda n: sym(n, array=1)
DECOS = {"debug": (DB + "debug_streaming", DB + "StreamingDebugger"), "profile": (PR + "profile_streaming", PR + "StreamingProfiler"), "memory": (MT + "track_memory_usage", MT + "MemoryTracker")}


def wrap(L, kind, mon, fn, name="mod", **kw):
    args = ([] if mon is None else [mon]) + ([] if name is None else [const(name)])
    if mon is None and name is not None:
        args, kw = [], {**kw, "module_name": name}
    mod, node = L.R.p.need(DECOS[kind][0])
    f = L.I.global_value(mod, node.name)
    return L.call(L.I.call(f, args, {k: L.lift(v) for k, v in kw.items()}, None, L.st), fn)


def transparent(R, kind, single, enabled, given=True, named=True, opts=(), mangle=False):
    L = Lab(R)
    fn, log = L.streaming(single=single, name=None if named else "fnname")
    mon = L.new(DECOS[kind][1]) if given else None
    if mon is not None and not enabled:
        L.do(mon, "disable")
    w = wrap(L, kind, mon, fn, "mod" if named else None, **dict(opts))
    res, want = [], []
    r = L.do(w, "init", sym("key"), sym("x0"))
    want.append(("init", (sym("key"), sym("x0"))))
    res.append(L.same(r, app("INIT", sym("key"), sym("x0")), "init"))
    for n in range(3):
        a = (sym("params"), sym(f"s{n}"), sym("rng"), sym(f"x{n}"), sym(f"y{n}"))
        kw = {"flag": sym("flag")} if n == 1 else {}
        t = a + ((const("flag"), sym("flag")) if kw else ())
        out = L.do(w, "apply", *a, **kw)
        want.append(("apply", t))
        o = app("OUT", const(n + (1 if mangle else 0)), *t)
        res.append(L.same(out, [o, app("NEW", const(n), *t), app("AUX", const(n), *t)] if single == 3 else o if single else [o, app("NEW", const(n), *t)], f"result of apply call {n + 1}"))
    r = L.call(w, sym("z"))
    want.append(("call", (sym("z"),)))
    res.append(L.same(r, app("CALL", sym("z")), "direct call"))
    if log != want:
        return violated(f"calls of the wrapped function: {[(q, [show(y) for y in t]) for q, t in log]}")
    return worst(res)


def propagates(R, kind):
    L = Lab(R)
    fn, log = L.streaming(fails_at=1)
    mon = L.new(DECOS[kind][1])
    w = wrap(L, kind, mon, fn)
    L.do(w, "apply", sym("p"), sym("s"), sym("k"), sym("x0"))
    try:
        out = L.do(w, "apply", sym("p"), sym("s"), sym("k"), sym("x1"))
    except AbsRaise as e:
        return holds() if "ValueError" in str(e.exc) else violated(f"the exception of the function becomes {e.exc}")
    return violated("the exception of the wrapped function is swallowed")


def records_once(R, kind, fails=None):
    """every apply is one recorded step with its module name, duration, state, input and output"""
    L = Lab(R)
    fn, log = L.streaming(fails_at=fails)
    mon = L.new(DECOS[kind][1], **({"snapshot_interval": 1} if kind == "memory" else {}))
    seen = []
    if kind == "debug":
        def cond(I, a, k, s):
            seen.append(tuple(I.term(x, s) for x in a) + tuple(I.term(k[q], s) for q in ("step", "state", "input_data", "output") if q in k))
            return FALSE
        hook = L.new(DB + "DebugHook", "h", Py("cond", cond))
        L.do(mon, "add_hook", hook)
    w = wrap(L, kind, mon, fn)
    res = []
    arr = lambda n: sym(n, array=1, hasattr=("nbytes", "shape"))
    n_ok = 3 if fails is None else fails
    for n in range(n_ok + (fails is not None)):
        try:
            L.do(w, "apply", sym("p"), sym(f"s{n}"), sym("k"), arr(f"x{n}"), arr("y"))
        except AbsRaise:
            if n != fails:
                raise
    t = lambda n: (sym("p"), sym(f"s{n}"), sym("k"), arr(f"x{n}"), arr("y"))
    if kind == "debug":
        want = [(const(n + 1), app("NEW", const(n), *t(n)), arr(f"x{n}"), app("OUT", const(n), *t(n))) for n in range(n_ok)]
        if len(seen) != len(want):
            return violated(f"{len(seen)} debugging steps for {len(want)} calls of apply")
        for a, b in zip(seen, want):
            for u, v, nm in zip(a, b, ("step", "state", "input", "output")):
                res.append(L.same(u, v, f"{nm} given to the debug condition"))
        times = L.items(L.entries(L.get(mon, "performance_data"))["execution_time"]) if n_ok else []
        res.append(L.same(Tup(list(times)), [sym(f"dt{n}") for n in range(n_ok)], "execution times"))
    elif kind == "profile":
        ms = L.items(L.get(mon, "metrics"))
        k = n_ok + (fails is not None)
        if len(ms) != k:
            return violated(f"{len(ms)} performance records for {k} calls of apply")
        for n, m in enumerate(ms):
            res.append(L.same(L.get(m, "step"), const(n + 1), "step of the record"))
            res.append(L.same(L.get(m, "module_name"), const("mod"), "module of the record"))
            res.append(L.same(L.get(m, "execution_time"), sym(f"dt{n}"), "execution time of the record"))
            res.append(L.same(L.get(m, "input_size"), mk("attr", arr(f"x{n}"), "nbytes"), "input size of the record"))
    return worst(res)


def names(R, kind):
    """without a module name the function's own name (any callable object accepted)"""
    L = Lab(R)
    fn, log = L.streaming()
    mon = L.new(DECOS[kind][1])
    mod, node = L.R.p.need(DECOS[kind][0])
    # a transformed pair is an object without __name__
    c = L.new("wax.flax.core.streaming_transforms.streaming_transform_with_state", Py("f", lambda I, a, k, s: a[0], {"__name__": const("f")})) if False else Tup([fn.attrs["init"], fn.attrs["apply"]], "namedtuple", ("init", "apply"))
    w = L.call(L.I.call(L.I.global_value(mod, node.name), [mon], {}, None, L.st), c)
    out = L.do(w, "apply", sym("p"), sym("s"), sym("k"), sym("x"))
    t = (sym("p"), sym("s"), sym("k"), sym("x"))
    return L.same(out, [app("OUT", ZERO, *t), app("NEW", ZERO, *t)], "result")


@prop("W81")
def decorators(R):
    R.total = True
    R.rule("transparent", "init, apply and the direct call of a function wrapped by debug_streaming, profile_streaming or track_memory_usage return what the function returns and call it exactly once with the same arguments")
    R.rule("propagates", "an exception of the function reaches the caller")
    R.rule("one-record", "each apply is one debugging step (new state, first input, output, duration), and one performance record with its duration, also when it fails")
    R.rule("any-function", "without a module name any function or init/apply pair is accepted")
    for kind in DECOS:
        w = where_(R, DECOS[kind][0])
        for single in (False, True, 3):
            for enabled in (True, False):
                R.ob("transparent", f"{kind}[{'three results' if single == 3 else 'single result' if single else 'output and state'},{'enabled' if enabled else 'disabled'}]", lambda: transparent(R, kind, single, enabled), w)
        R.ob("transparent", f"{kind}[own monitor]", lambda: transparent(R, kind, False, True, given=False), w)
        R.ob("transparent", f"{kind}[named by the function]", lambda: transparent(R, kind, False, True, named=False), w)
        o = {"debug": (("enable_timing", False),), "profile": (("enable_detailed_tracking", False),), "memory": (("detailed_state_analysis", False),)}[kind]
        R.ob("transparent", f"{kind}[{o[0][0]}=False]", lambda: transparent(R, kind, False, True, opts=o), w)
        R.ob("propagates", kind, lambda: propagates(R, kind), w)
        R.ob("any-function", kind, lambda: names(R, kind), w)
        if kind != "memory":
            R.ob("one-record", kind, lambda: records_once(R, kind), w)
            R.ob("one-record", kind + "[failing call]", lambda: records_once(R, kind, 1), w)
        R.control(lambda: transparent(R, kind, False, True, mangle=True))


# --------------------------------------------------------------------------- debugger
def cond_model(L, log, verdict):
    """a condition deciding by step number; logs its arguments"""
    def f(I, a, k, s):
        v = list(a) + [k[q] for q in ("step", "state", "input_data", "output")[len(a):] if q in k]
        t = [I.term(x, s) for x in v]
        log.append(tuple(t))
        n = num(t[0])
        r = verdict(n)
        if r is None:
            raise AbsRaise("ValueError", sure=True)
        return TRUE if r else FALSE

    return Py("condition", f)


def hooks(R, verdicts, steps, maxes, off=(), mangle=False, action="log"):
    """hooks fire exactly at the steps where their own condition is true; a failing condition counts as false"""
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    logs = []
    hk = []
    for i, (v, mx) in enumerate(zip(verdicts, maxes)):
        log = []
        logs.append(log)
        h = L.new(DB + "DebugHook", f"h{i}", cond_model(L, log, v), action, mx)
        hk.append(h)
        if i in off:
            L.I.setattr(h, "enabled", FALSE, L.st)
        L.do(mon, "add_hook", h)
    args = lambda n: (A(f"s{n}"), A(f"x{n}"), A(f"y{n}"))
    for n in range(1, steps + 1):
        s, x, y = args(n)
        L.do(mon, "step", "mod", {"v": s}, x, y, sym(f"dt{n}"))
    res = [L.same(L.get(mon, "current_step"), const(steps), "current_step")]
    for i, (v, mx) in enumerate(zip(verdicts, maxes)):
        want = [] if i in off else [(const(n), *args(n)[1:]) for n in range(1, steps + 1)]
        if [(t[0], t[2], t[3]) for t in logs[i]] != want:
            return violated(f"condition of hook {i} got {[tuple(map(show, t)) for t in logs[i]]}")
        fired = [n for n in range(1, steps + 1) if i not in off and v(n)]
        if mangle:
            fired = fired[1:]
        res.append(L.same(L.get(hk[i], "hit_count"), const(len(fired)), f"hit count of hook {i}"))
        ev = L.items(L.get(hk[i], "events"))
        keep = fired[-mx:]
        if len(ev) != len(keep):
            return violated(f"hook {i} keeps {len(ev)} events, required {len(keep)}")
        for e, n in zip(ev, keep):
            s, x, y = args(n)
            for nm, w in (("step", const(n)), ("module_name", const("mod")), ("input_data", x), ("output_data", y), ("state_snapshot", {"v": s})):
                res.append(L.same(L.get(e, nm), w, f"{nm} of an event of hook {i}"))
    return worst(res)


def history(R, limit, steps, track=True, disabled=()):
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger", enable_state_tracking=track, max_history=limit)
    seen = []
    for n in range(steps):
        if n in disabled:
            L.do(mon, "disable")
        L.do(mon, "step", "mod", A(f"s{n}"), A(f"x{n}"), A(f"y{n}"))
        if n in disabled:
            L.do(mon, "enable")
        else:
            seen.append(A(f"s{n}"))
    got = list(L.items(L.get(mon, "state_history")))
    want = seen[-limit:] if track else []
    if len(got) != len(want):
        return violated(f"{len(got)} states kept, required {len(want)}")
    s = L.entries(L.do(mon, "get_summary"))
    return worst([L.same(Tup(got), want, "state history"), L.same(s["total_steps"], const(len(seen)), "total_steps"), L.same(s["state_history_length"], const(len(want)), "state_history_length")])


def summary(R, times, removed=False, cleared=False, off=False):
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    for nm in ("a", "b"):
        h = L.new(DB + "DebugHook", nm, cond_model(L, [], lambda n, nm=nm: nm == "a" or n == 1))
        L.do(mon, "add_hook", h)
    for t in times:
        L.do(mon, "step", "mod", A("s"), A("x"), A("y"), t)
    if off:
        L.I.setattr(h, "enabled", FALSE, L.st)
    if removed:
        L.do(mon, "remove_hook", "a")
        L.do(mon, "remove_hook", "zz")
    if cleared:
        L.do(mon, "clear_history")
    s = L.do(mon, "get_summary")
    n = len(times)
    tt = [t for t in times if t is not None]
    z = lambda k: ZERO if cleared else const(k)
    want = {"total_steps": const(n), "hooks": {nm: {"hit_count": z(n if nm == "a" else min(n, 1)), "events": z(n if nm == "a" else min(n, 1)), "enabled": FALSE if off and nm == "b" else TRUE} for nm in ("a", "b") if not (removed and nm == "a")}, "state_history_length": z(n)}
    if tt and not cleared:
        want["performance"] = {"total_steps": const(len(tt)), "avg_time_ms": const(sum(tt) / len(tt) * 1000), "max_time_ms": const(max(tt) * 1000), "min_time_ms": const(min(tt) * 1000)}
    r = L.same_tree(s, want, "summary")
    e = L.entries(L.entries(s)["hooks"])
    if cleared:
        r = worst([r] + [L.same(v, ZERO, f"performance[{k}] after clear_history") for k, v in L.entries(L.entries(s)["performance"]).items()])
    if removed and "a" in e:
        return violated("a removed hook is still reported")
    return r


def shipped(R, which, mangle=False):
    """the conditions that come with the debugger"""
    L = Lab(R)
    ask = lambda c, n, st, x: L.call(c, const(n), st, x, sym("y"))
    call = lambda nm, *a, **k: L.call(L.I.global_value(*_fn(R, DB + nm)), *a, **k)
    res = []
    truth = lambda v, w, what: holds() if num(L.I.term(v, L.st)) == w else violated(f"{what}: {show(L.I.term(v, L.st))}, required {w}") if num(L.I.term(v, L.st)) is not None else undecided(f"{what}: {show(L.I.term(v, L.st))[:200]}")
    if which == "interval":
        c = call("step_interval", 3)
        for n in range(1, 8):
            res.append(truth(ask(c, n, sym("s"), sym("x")), (n % 3 == 0) != mangle, f"step_interval(3) at step {n}"))
    elif which == "threshold":
        c = call("value_threshold", Fraction(5, 2))
        for x in (-3, 2, Fraction(5, 2), 3):
            res.append(truth(ask(c, 1, sym("s"), L.lift(x) if isinstance(x, Fraction) else const(x)), x > Fraction(5, 2), f"value_threshold(2.5) on {x}"))
        c = call("value_threshold", 2, "f")
        for d, w in (({"f": 3, "g": 0}, True), ({"f": 1, "g": 9}, False), ({"g": 9}, False), ({"f": 2}, False)):
            res.append(truth(ask(c, 1, sym("s"), d), w, f"value_threshold(2, 'f') on {d}"))
        c = call("value_threshold", -1, "f")
        res.append(truth(ask(c, 1, sym("s"), {"g": 9}), True, "value_threshold(-1, 'f') without the field"))
    else:
        c = call("state_change_detector", "v", Fraction(1, 2))
        last = None
        for n, v in enumerate((0, Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), 1, Fraction(1, 4), 0, 5)):
            w = False
            if last is None:
                last = v
            elif abs(v - last) > Fraction(1, 2):
                w, last = True, v
            res.append(truth(ask(c, n, {"v": v}, sym("x")), w, f"state_change_detector after {n} states"))
        res.append(truth(ask(c, 9, {"w": 3}, sym("x")), False, "state_change_detector without the field"))
    return worst(res)


def _fn(R, d):
    mod, node = R.p.need(d)
    return mod, node.name


def slow(R, thr, times):
    """the performance monitor alerts exactly at steps slower than its threshold"""
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    L.do(mon, "add_performance_monitor", "p", thr)
    want = []
    for n, t in enumerate(times, 1):
        L.do(mon, "step", "mod", A("s"), A("x"), A("y"), t)
        if t is not None and t * 1000 > thr:
            want.append(n)
    h = list(L.entries(L.get(mon, "hooks")).values())
    if len(h) != 1:
        return violated(f"{len(h)} hooks")
    got = [num(L.I.term(L.get(e, "step"), L.st)) for e in L.items(L.get(h[0], "events"))]
    return holds() if got == want else violated(f"alerts at steps {got}, required {want}")


def defaults(R, kind):
    """breakpoints stop (ask for a command) exactly when their condition holds; nothing else does"""
    L = Lab(R)
    asked = []

    def inp(I, a, k, s):
        asked.append(1)
        return const("c")

    L.I.handlers["builtins.input"] = inp
    L.I.handlers["input"] = inp
    mon = L.new(DB + "StreamingDebugger")
    L.do(mon, "add_breakpoint", "b", cond_model(L, [], lambda n: n in (2, 3)))
    L.do(mon, "add_state_change_hook", "c", cond_model(L, [], lambda n: n > 3))
    for n in range(1, 6):
        before = len(asked)
        L.do(mon, "step", "mod", A("s"), A("x"), A("y"))
        if (len(asked) > before) != (n in (2, 3)):
            return violated(f"step {n}: {'stops' if len(asked) > before else 'does not stop'}")
    h = list(L.entries(L.get(mon, "hooks")).values())
    return worst([L.same(L.get(h[0], "hit_count"), const(2), "hits of the breakpoint"), L.same(L.get(h[1], "hit_count"), const(2), "hits of the state change hook")])


def snapshots(R, mangle=False, plain=False):
    """events and state history keep the data of their step, whatever the caller does with its containers afterwards"""
    L = Lab(R)
    A = (lambda n: const(ord(n[0]))) if plain else globals()["A"]
    nt = NTCls("Moments", ("mu", "nu"))
    mon = L.new(DB + "StreamingDebugger")
    h = L.new(DB + "DebugHook", "h", cond_model(L, [], lambda n: True), "capture")
    L.do(mon, "add_hook", h)
    st, x, y = L.lift({"opt": Tup([A("m"), A("n")], "namedtuple", nt.fields, nt), "deep": Tup([L.lift([A("u")]), L.lift({"v": A("v")})], "namedtuple", nt.fields, nt), "c": {"k": A("a"), "l": [A("b"), {"z": A("d")}]}}), L.lift([A("e"), {"q": A("f")}]), L.lift({"o": [A("g")], "p": Tup([A("i"), L.lift([A("j")])])})
    L.do(mon, "step", "mod", st, x, y)
    sub = lambda v, *p: L.entries(v)[p[0]] if len(p) == 1 else sub(L.entries(v)[p[0]], *p[1:])
    new = lambda o, k, v: L.I.setitem(o, const(k), v, L.st)
    new(sub(st, "c"), "k", A("later"))
    new(st, "extra", A("later"))
    new(sub(st, "c", "l"), 0, A("later"))
    new(L.items(sub(st, "c", "l"))[1], "z", A("later"))
    new(L.get(sub(st, "deep"), "mu"), 0, A("later"))
    new(L.get(sub(st, "deep"), "nu"), "v", A("later"))
    new(L.items(x)[1], "q", A("later"))
    new(x, 0, A("later"))
    new(sub(y, "o"), 0, A("later"))
    ev = L.items(L.get(h, "events"))
    hist = L.items(L.get(mon, "state_history"))
    if len(ev) != 1 or len(hist) != 1:
        return violated(f"{len(ev)} events and {len(hist)} states kept after one step")
    e = ev[0]
    res = []

    def state(v, what):
        d = L.entries(v)
        if "extra" in d:
            return violated(f"{what}: an entry added after the step")
        o = d["opt"]
        if isinstance(o, T) and o.op in ("app", "obj"):
            return violated(f"{what}: a named tuple of the state is kept as {show(o)[:80]}")
        ll = L.items(L.entries(d["c"])["l"])
        p = d["deep"]
        return worst([L.same(L.items(L.get(p, "mu"))[0], A("u"), f"{what}: list in a named tuple"), L.same(L.entries(L.get(p, "nu"))["v"], A("v"), f"{what}: dict in a named tuple"), L.same(L.get(o, "mu"), A("n" if mangle else "m"), f"{what}: named tuple"), L.same(L.get(o, "nu"), A("n"), f"{what}: named tuple"), L.same(L.entries(d["c"])["k"], A("a"), f"{what}: nested dict"),
                      L.same(ll[0], A("b"), f"{what}: list in a dict"), L.same(L.entries(ll[1])["z"], A("d"), f"{what}: dict in a list")])

    res += [state(L.get(e, "state_snapshot"), "state_snapshot"), state(hist[0], "state_history")]
    i = L.items(L.get(e, "input_data"))
    o = L.entries(L.get(e, "output_data"))
    res += [L.same(i[0], A("e"), "input_data: list"), L.same(L.entries(i[1])["q"], A("f"), "input_data: dict in a list"), L.same(L.items(o["o"])[0], A("g"), "output_data: list in a dict")]
    res += [L.same(L.items(o["p"])[0], A("i"), "output_data: tuple"), L.same(L.items(L.items(o["p"])[1])[0], A("j"), "output_data: list in a tuple")]
    return worst(res)


def arrays_kept(R, nested):
    """NumPy arrays changed in place after the step"""
    L = Lab(R, NpInterp)
    nd = lambda *v: L.I.array(L.st, Arr([const(x) for x in v]))
    mon = L.new(DB + "StreamingDebugger")
    h = L.new(DB + "DebugHook", "h", cond_model(L, [], lambda n: True), "capture")
    L.do(mon, "add_hook", h)
    a, b, c = nd(1, 2), nd(3, 4), nd(5, 6)
    L.do(mon, "step", "mod", {"v": a}, [b] if nested else b, {"o": c} if nested else c)
    for x in (a, b, c):
        L.I.setitem(x, ZERO, const(99), L.st)
    e = L.items(L.get(h, "events"))[0]
    res = []
    i, o = L.get(e, "input_data"), L.get(e, "output_data")
    for v, w, what in ((L.entries(L.get(e, "state_snapshot"))["v"], (1, 2), "state_snapshot"), (L.entries(L.items(L.get(mon, "state_history"))[0])["v"], (1, 2), "state_history"), (L.items(i)[0] if nested else i, (3, 4), "input_data"), (L.entries(o)["o"] if nested else o, (5, 6), "output_data")):
        res.append(L.same(Tup(list(L.I.deref(v, L.st).items)), [const(x) for x in w], f"{what}: array changed in place later"))
    return worst(res)


def unconditional(R, which):
    """a hook without a condition never fires"""
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    if which == "hook":
        L.do(mon, "add_hook", L.new(DB + "DebugHook", "h"))
    else:
        L.do(mon, "add_state_change_hook", "h")
    for n in range(3):
        L.do(mon, "step", "mod", A("s"), A("x"), A("y"))
    h = list(L.entries(L.get(mon, "hooks")).values())
    return worst([L.same(L.get(h[0], "hit_count"), ZERO, "hits of a hook without condition"), holds() if not L.items(L.get(h[0], "events")) else violated("a hook without a condition keeps an event")])


def collections_kept(R):
    """variable collections of a pair: parameter shapes and state values"""
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    w = sym("w", array=1, hasattr=("shape",))
    L.do(mon, "step", "mod", {"params": {"w": w}, "state": {"m": {"v": A("v")}}}, A("x"), A("y"))
    d = L.entries(L.items(L.get(mon, "state_history"))[0])
    if set(d) != {"params_shapes", "state_values"}:
        return violated(f"the state history keeps the entries {sorted(d)}")
    return worst([L.same(L.entries(L.entries(d["state_values"])["m"])["v"], A("v"), "state values"), L.same(L.I.term(L.entries(d["params_shapes"])["w"], L.st), L.I.term(L.get(w, "shape"), L.st), "parameter shapes")])


def event_fields(R, action, time, mangle=False):
    """kind, duration and session time of an event"""
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    h = L.new(DB + "DebugHook", "h", cond_model(L, [], lambda n: n == 2), action)
    L.do(mon, "add_hook", h)
    L.now.append(sym("d0"))
    L.do(mon, "step", "mod", A("s"), A("x"), A("y"))
    L.now.append(sym("d1"))
    L.do(mon, "step", "mod", A("s"), A("x"), A("y"), *([] if time is None else [time]))
    e = L.items(L.get(h, "events"))
    if len(e) != 1:
        return violated(f"{len(e)} events, required 1")
    md = L.entries(L.get(e[0], "metadata"))
    ms = NONE if time is None else mk("mul", time if isinstance(time, T) else const(time), const(1001 if mangle else 1000))
    return worst([L.same(md["execution_time_ms"], ms, "execution_time_ms"), L.same(md["session_time"], add(sym("d0"), sym("d1")), "session_time"), L.same(L.get(e[0], "timestamp"), add(*L.now), "timestamp"),
                  L.same(L.get(e[0], "event_type"), const("breakpoint" if action == "break" else "state_change"), "event_type")])


def exported(R, mangle=False):
    """export_events shows the kept events of every hook and the kept durations"""
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger", max_history=4)
    for nm, mx, f in (("a", 2, lambda n: True), ("b", 9, lambda n: n % 2 == 0), ("c", 9, lambda n: False)):
        L.do(mon, "add_hook", L.new(DB + "DebugHook", nm, cond_model(L, [], f), "capture", mx))
    ts = [Fraction(1, 7), Fraction(2, 7), None, Fraction(3, 7), Fraction(1, 9), Fraction(5, 9), Fraction(1, 2)]
    stamps = []
    for i, t in enumerate(ts):
        L.now.append(sym(f"w{i}"))
        stamps.append(add(*L.now))
        L.do(mon, "step", "mod", A("s"), A("x"), A("y"), t)
    d = L.entries(L.do(mon, "export_events"))
    hk = L.entries(d["hooks"])
    want = {"a": [6, 7], "b": [2, 4, 6], "c": []}
    if mangle:
        want["b"] = [2, 4]
    if set(hk) != set(want):
        return violated(f"hooks {sorted(hk)} exported")
    res = []
    for nm, w in want.items():
        ev = [L.entries(e) for e in L.items(hk[nm])]
        if len(ev) != len(w):
            return violated(f"{len(ev)} events of hook {nm} exported, required {len(w)}")
        for e, n in zip(ev, w):
            t = ts[n - 1]
            res += [L.same(e["step"], const(n), "step of an exported event"), L.same(e["timestamp"], stamps[n - 1], "timestamp of an exported event"), L.same(e["event_type"], const("state_change"), "event_type"),
                    L.same(L.entries(e["metadata"])["execution_time_ms"], NONE if t is None else const(t * 1000), "metadata of an exported event")]
    pd = L.entries(d["performance_data"])
    kept = [(n, t) for n, t in enumerate(ts, 1) if t is not None][-4:]
    res.append(L.same(Tup(list(L.items(pd["execution_time"]))), [const(t) for _, t in kept], "exported durations"))
    res.append(L.same(Tup(list(L.items(pd["step"]))), [const(n) for n, _ in kept], "exported steps"))
    res.append(L.same(L.entries(d["summary"])["total_steps"], const(len(ts)), "exported summary"))
    return worst(res)


def refused(R):
    L = Lab(R)
    mon = L.new(DB + "StreamingDebugger")
    try:
        L.do(mon, "export_events", "no such format")
    except AbsRaise:
        return holds()
    return violated("an unknown export format is accepted")


def commands(R, cmds, quits=False):
    """a breakpoint reads commands until one of them continues; q stops the program"""
    L = Lab(R)
    asked = []

    def inp(I, a, k, s):
        if len(asked) >= len(cmds):
            raise GiveUp("more commands read than given")
        c = cmds[len(asked)]
        asked.append(c)
        if c is None:
            raise AbsRaise("EOFError", sure=True)
        return const(c)

    L.I.handlers["builtins.input"] = L.I.handlers["input"] = inp
    mon = L.new(DB + "StreamingDebugger")
    L.do(mon, "add_breakpoint", "b", cond_model(L, [], lambda n: n == 1))
    try:
        L.do(mon, "step", "mod", A("s"), A("x"), A("y"))
    except AbsRaise as e:
        return holds() if quits and (e.exc is None or "KeyboardInterrupt" in str(e.exc)) and asked == list(cmds) else violated(f"the commands {asked} end the program: {e.exc}")
    if quits:
        return violated("the program goes on after q")
    return holds() if asked == list(cmds) else violated(f"goes on after {asked}, required {list(cmds)}")


def vector_change(R):
    """a change of a vector is its Euclidean norm"""
    L = Lab(R)

    def norm(I, a, k, s):
        v = [num(x) for x in I.iter_items(a[0], s)]
        q = sum(x * x for x in v)
        if len(a) > 1 or k:
            raise GiveUp("norm")
        # exact up to 2 ** -40, far from every threshold used here
        return const(Fraction(math.isqrt(int(q * 4 ** 40)), 2 ** 40))

    L.I.handlers["jax.numpy.linalg.norm"] = norm
    c = L.call(L.I.global_value(*_fn(R, DB + "state_change_detector")), "v", Fraction(5, 2))
    res = []
    for n, (v, w) in enumerate((((0, 0), False), ((0, 2), False), ((2, 0), False), ((3, 4), True), ((3, 6), False), ((5, 4), False), ((6, 8), True), ((8, 10), True))):
        r = L.I.term(L.call(c, const(n), {"v": Arr([const(q) for q in v])}, sym("x"), sym("y")), L.st)
        g = num(r)
        res.append(undecided(f"{show(r)[:150]}") if g is None else holds() if g == w else violated(f"state_change_detector on {v}: {g}, required {w}"))
    return worst(res)


@prop("W82")
def debugger(R):
    R.total = True
    w = where_(R, DB + "StreamingDebugger")
    R.rule("hooks", "each step asks every enabled hook's condition once with step number, state, input and output; a hook fires exactly when its condition is true (a raising condition counts as false and does not stop the others), counts its hits and keeps its newest max_events events with that step's data")
    R.rule("history", "the newest max_history states are kept in order; steps are counted exactly while enabled")
    R.rule("summary", "get_summary reports steps, hits and events per registered hook and total/average/maximum/minimum of the recorded durations; clear_history forgets events, hits, states and durations")
    R.rule("conditions", "step_interval fires at multiples of the interval, value_threshold above the threshold, state_change_detector at a change larger than the tolerance since the last reported value; the performance monitor alerts at steps slower than its threshold; a breakpoint stops at its condition only")
    T1, T2, T3 = (lambda n: True), (lambda n: n % 2 == 0), (lambda n: None if n == 2 else n > 2)
    for nm, vs, steps, mx, off in (("always", [T1], 4, [10], ()), ("bounded", [T1], 5, [2], ()), ("three", [T2, T3, T1], 5, [10, 10, 3], ()), ("raising first", [T3, T1], 4, [5, 5], ()), ("disabled", [T1, T2], 4, [5, 5], (0,))):
        R.ob("hooks", nm, lambda: hooks(R, vs, steps, mx, off), w)
    for a in ("alert", "capture"):
        R.ob("hooks", f"action {a}", lambda: hooks(R, [T2, T1], 3, [5, 5], (), action=a), w)
    R.control(lambda: hooks(R, [T1], 3, [5], (), True))
    for lim, n in ((1, 3), (3, 2), (3, 3), (3, 7)):
        R.ob("history", f"max_history={lim},{n} steps", lambda: history(R, lim, n), w)
    R.ob("history", "states not tracked", lambda: history(R, 3, 4, False), w)
    R.ob("history", "disabled at times", lambda: history(R, 3, 6, True, (1, 4)), w)
    ts = [Fraction(3, 7), Fraction(1, 9), None, Fraction(5, 3), Fraction(2, 9)]
    for n in (0, 1, 2, 5):
        R.ob("summary", f"{n} steps", lambda: summary(R, ts[:n]), w)
    R.ob("summary", "after remove_hook", lambda: summary(R, ts, True), w)
    R.ob("summary", "after clear_history", lambda: summary(R, ts, False, True), w)
    R.ob("summary", "with a disabled hook", lambda: summary(R, ts, off=True), w)
    R.ob("summary", "after clear_history with a disabled hook", lambda: summary(R, ts, False, True, True), w)
    R.rule("data", "an event keeps the state, input and output of its step and the history the state, also when the caller changes its containers later; named tuples stay what they are; duration in milliseconds, session time and kind of the event are kept")
    R.rule("export", "export_events shows exactly the kept events of every hook and the kept durations; other formats are refused")
    R.ob("data", "nested containers", lambda: snapshots(R), w)
    R.ob("data", "nested containers of numbers", lambda: snapshots(R, plain=True), w)
    R.ob("data", "variable collections", lambda: collections_kept(R), w)
    for nested in (False, True):
        R.ob("data", "arrays changed in place" + (" in containers" if nested else ""), lambda: arrays_kept(R, nested), w)
    for k in ("hook", "state change hook"):
        R.ob("hooks", f"{k} without condition", lambda: unconditional(R, k), w)
    for a in ("capture", "break"):
        for t in (None, Fraction(1, 8), sym("dt")):
            R.ob("data", f"{a},{'no' if t is None else 'given' if isinstance(t, Fraction) else 'any'} duration", lambda: event_fields(R, a, t), w)
    R.ob("export", "dict", lambda: exported(R), w)
    R.ob("export", "unknown format", lambda: refused(R), w)
    for c, q in ((("c",), False), (("x", "s", "i", "o", "h", "", "continue"), False), ((None,), False), (("s", None), False), (("q",), True), (("i", "quit"), True)):
        R.ob("conditions", f"commands {'/'.join(x or 'EOF' for x in c)}", lambda: commands(R, c, q), w)
    R.ob("conditions", "vector state", lambda: vector_change(R), w)
    R.control(lambda: snapshots(R, True))
    R.control(lambda: event_fields(R, "capture", Fraction(1, 8), True))
    R.control(lambda: exported(R, True))
    for c in ("interval", "threshold", "change"):
        R.ob("conditions", c, lambda: shipped(R, c), where_(R, DB + {"interval": "step_interval", "threshold": "value_threshold", "change": "state_change_detector"}[c]))
    R.control(lambda: shipped(R, "interval", True))
    R.ob("conditions", "performance monitor", lambda: slow(R, 100, [Fraction(1, 20), Fraction(1, 10), Fraction(1, 5), Fraction(1, 100), Fraction(3)]), w)
    R.ob("conditions", "performance monitor, steps without duration", lambda: slow(R, 100, [None, Fraction(1, 5), None, Fraction(1, 20), None]), w)
    def go(L, d, i):
        L.do(d, "step", f"m{i % 2}", A("s"), A("x"), A("y"), Fraction(1, 8))
    R.rule("bounded", "no history grows beyond max_history")
    R.ob("bounded", "StreamingDebugger", lambda: bounded_growth(R, DB + "StreamingDebugger", {"max_history": 3}, go, 8), w)
    R.ob("conditions", "breakpoint", lambda: defaults(R, 0), w)


# --------------------------------------------------------------------------- profiler
def mean(v):
    return sum(v, Fraction(0)) / len(v)


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else Fraction(v[n // 2 - 1] + v[n // 2], 2)


def var(v):
    m = mean(v)
    return sum((x - m) ** 2 for x in v) / (len(v) - 1)


def profiled(R, steps, cfg=(), disable=(), t0=None):
    """steps: (module, duration, rss in MB, jit)"""
    L = Lab(R)
    if t0 is not None:
        L.now = [const(t0)]
    L.rss = [const(0)]
    p = L.new(PR + "StreamingProfiler", **dict(cfg))
    for n, (m, t, r, j) in enumerate(steps):
        L.rss.append(const(Fraction(r) * MB))
        if n in disable:
            L.do(p, "disable")
        L.do(p, "record_metrics", m, t, **({"jit_compilation": True} if j else {}))
        if n in disable:
            L.do(p, "enable")
    return L, p


STEPS = [("a", Fraction(3, 7), 10, True), ("b", Fraction(1, 9), 16, False), ("a", Fraction(5, 3), 12, True), ("a", Fraction(2, 9), 12, False), ("b", Fraction(1, 100), 20, False), ("a", Fraction(1, 3), 7, False), ("c", Fraction(4, 3), 8, False)]


def prof_records(R, steps, limit=10000, disable=(), mangle=False):
    L, p = profiled(R, steps, {"max_history": limit}.items(), disable)
    want = []
    last = None
    for n, (m, t, r, j) in enumerate(steps):
        if n in disable:
            continue
        if last is None:
            last = r
        want.append((len(want) + 1, m, t, r, r - last, j))
        last = r
    total = len(want)
    want = want[-limit:]
    ms = list(L.items(L.get(p, "metrics")))
    if len(ms) != len(want):
        return violated(f"{len(ms)} records kept, required {len(want)}")
    res = [L.same(L.get(p, "step_count"), const(total), "step_count")]
    for m, (n, mod, t, r, d, j) in zip(ms, want):
        for nm, w in (("step", n + mangle), ("module_name", mod), ("execution_time", t), ("memory_usage", r), ("memory_delta", d), ("jit_compilation", j)):
            if nm != "memory_delta" or n > 1:  # the first record: see prof_first
                res.append(L.same(L.get(m, nm), L.lift(w) if isinstance(w, bool) else const(w), f"{nm} of record {n}"))
    return worst(res)


def prof_first(R):
    """the first record of a session has nothing to compare its memory with"""
    L, p = profiled(R, STEPS[:2])
    return L.same(L.get(L.items(L.get(p, "metrics"))[0], "memory_delta"), ZERO, "memory_delta of the first record")


def either(a, b):
    """a record is allowed to be judged by either of two requirements"""
    return a if a.status == "holds" or b.status != "holds" else b


def prof_summary(R, steps, limit=10000, mangle=False):
    L, p = profiled(R, steps, {"max_history": limit}.items())
    r = L.do(p, "finalize")
    s = L.I.call(L.get(r, "get_summary"), [], {}, None, L.st)
    kept = steps[-limit:]
    t = [x[1] for x in kept]
    mem = [Fraction(x[2]) for x in kept]
    d = [Fraction(b[2] - a[2]) for a, b in zip(steps[:1] + steps, steps)]
    d, d0 = d[-limit:], ([Fraction(steps[0][2])] + d[1:])[-limit:] if steps else []
    if not steps:
        return L.same_tree(s, {"error": const("No profiling data available")}, "summary")
    sd = mk("mul", mk("sqrt", const(var(t))), const(1000)) if len(t) > 1 else ZERO
    alloc = lambda d: L.same_tree(s, {"memory": {"total_allocated": const(sum(x for x in d if x > 0))}}, "summary")
    want = {
        "session": {"total_steps": const(len(steps))},
        "execution": {"total_time": const(sum(t)), "avg_time_ms": const(mean(t) * 1000), "median_time_ms": const(median(t) * 1000 + mangle), "max_time_ms": const(max(t) * 1000), "min_time_ms": const(min(t) * 1000), "std_dev_ms": sd},
        "memory": {"peak_usage_mb": const(max(mem)), "avg_usage_mb": const(mean(mem)), "memory_efficiency": const(min(mem) / max(mem))},
        **({"bottlenecks": const(sum(x[1] * 1000 > 100 for x in steps))} if len(kept) == len(steps) else {}), "jit_compilations": const(sum(x[3] for x in kept)),
    }
    return worst([either(alloc(d), alloc(d0)), L.same_tree(s, want, "summary"), L.same(L.get(r, "total_steps"), const(len(steps)), "total_steps"), L.same(const(len(L.items(L.get(r, "metrics")))), const(len(kept)), "number of metrics")])


def prof_module(R, steps, limit=10000):
    L, p = profiled(R, steps, {"max_history": limit}.items())
    res = []
    for m in ("a", "b", "zz"):
        s = L.do(p, "get_module_summary", m)
        k = [x for x in steps[-limit:] if x[0] == m]
        if not k:
            if "error" not in L.entries(s):
                return violated(f"a summary for module {m} without data")
            continue
        t = [x[1] for x in k]
        mem = [Fraction(x[2]) for x in k]
        want = {"module_name": const(m), "total_invocations": const(len(k)), "total_time_ms": const(sum(t) * 1000), "avg_time_ms": const(mean(t) * 1000), "max_time_ms": const(max(t) * 1000), "min_time_ms": const(min(t) * 1000), "avg_memory_mb": const(mean(mem)), "peak_memory_mb": const(max(mem)), "jit_compilations": const(sum(x[3] for x in k))}
        res.append(L.same_tree(s, want, f"summary of module {m}"))
    return worst(res)


def prof_bottlenecks(R, thr):
    L, p = profiled(R, STEPS, {"bottleneck_threshold_ms": thr}.items())
    got = [L.entries(b) for b in L.items(L.get(L.do(p, "finalize"), "bottlenecks"))]
    want = [(n, m, t * 1000, r) for n, (m, t, r, _) in enumerate(STEPS, 1) if t * 1000 > thr]
    if len(got) != len(want):
        return violated(f"{len(got)} bottlenecks, required {len(want)}")
    return worst([L.same(g[k], const(v), f"{k} of a bottleneck") for g, w in zip(got, want) for k, v in zip(("step", "module", "execution_time_ms", "memory_usage_mb"), w)])


def prof_sizes(R):
    L = Lab(R)
    p = L.new(PR + "StreamingProfiler")
    arr = lambda n, b: sym(n, array=1, nbytes=b)
    cases = [(None, 0), (3, 8), (Fraction(1, 2), 8), ("abc", 3), ([1, 2, 3], 24), ({"a": 1, "b": [2, "xy"]}, 18), ([], 0)]
    for v, n in cases:
        L.do(p, "record_metrics", "m", 1, v, [v, 1])
    ms = list(L.items(L.get(p, "metrics")))
    res = []
    for m, (v, n) in zip(ms, cases):
        res.append(L.same(L.get(m, "input_size"), const(n), f"input size of {v}"))
        res.append(L.same(L.get(m, "output_size"), const(n + 8), f"output size of {v}"))
    L.do(p, "record_metrics", "m", 1, sym("arr", array=1))
    res.append(L.same(L.get(list(L.items(L.get(p, "metrics")))[-1], "input_size"), mk("attr", sym("arr", array=1), "nbytes"), "size of an array"))
    # an array of another library (NumPy): no instance of jax.Array
    L.do(p, "record_metrics", "m", 1, sym("nparr", array=1, lib="numpy"))
    res.append(L.same(L.get(list(L.items(L.get(p, "metrics")))[-1], "input_size"), mk("attr", sym("nparr", array=1, lib="numpy"), "nbytes"), "size of a NumPy array"))
    return worst(res)


def prof_leak(R, rss, thr, want):
    L, p = profiled(R, [("m", Fraction(1, 100), r, False) for r in rss], {"memory_leak_threshold_mb": thr}.items())
    got = L.items(L.do(p, "detect_memory_leaks"))
    if bool(got) != (want is not None):
        return violated(f"{'a' if got else 'no'} leak reported for memory {rss}, threshold {thr}")
    return L.same(L.entries(got[0])["growth_mb"], const(want), "growth") if got else holds()


def prof_reset(R):
    L, p = profiled(R, STEPS)
    L.do(p, "reset")
    L.rss.append(const(5 * MB))
    L.do(p, "record_metrics", "q", Fraction(1, 8))
    r = L.do(p, "finalize")
    s = L.I.call(L.get(r, "get_summary"), [], {}, None, L.st)
    return L.same_tree(s, {"session": {"total_steps": ONE}, "execution": {"total_time": const(Fraction(1, 8))}, "memory": {"peak_usage_mb": const(5)}, "bottlenecks": ONE}, "summary after reset")


def prof_context(R, fails):
    """with profiler.start_step(m): exactly one record with the time spent inside, also when the block raises"""
    L = Lab(R)
    p = L.new(PR + "StreamingProfiler")
    c = L.do(p, "start_step", "m")
    L.do(c, "__enter__")
    L.now.append(sym("dt"))
    if fails == "jit":
        L.do(c, "set_jit_compilation", True)
    exc = mk("obj", "ValueError") if fails is True else NONE
    r = L.do(c, "__exit__", exc, exc, exc)
    if L.I.term(r, L.st) is not NONE and L.I.term(r, L.st) is not FALSE:
        return violated("the context manager swallows exceptions")
    ms = list(L.items(L.get(p, "metrics")))
    if len(ms) != 1:
        return violated(f"{len(ms)} records")
    return worst([L.same(L.get(ms[0], "execution_time"), sym("dt"), "execution time"), L.same(L.get(ms[0], "module_name"), const("m"), "module"), L.same(L.get(ms[0], "jit_compilation"), TRUE if fails == "jit" else FALSE, "jit_compilation")])


def containers(L, o, seen=None, path="", out=None):
    """number of elements of every container reachable from an object"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(o, Ref):
        if o.id in seen if hasattr(o, "id") else False:
            return out
        p = L.I.get(L.st, o)
        key = id(p)
        if key in seen:
            return out
        seen.add(key)
        if isinstance(p, PList):
            out[path] = out.get(path, 0) + len(p.items)
            for x in p.items:
                containers(L, x, seen, path + "[]", out)
        elif isinstance(p, PDict):
            out[path] = out.get(path, 0) + len(p.d)
            for k, x in p.d.items():
                containers(L, x, seen, f"{path}.{k}", out)
        elif hasattr(p, "attrs"):
            for k, x in p.attrs.items():
                containers(L, x, seen, f"{path}.{k}", out)
    return out


def bounded_growth(R, cls, cfg, step, n, mangle=False):
    """no container of the monitor grows with the number of steps beyond its configured bound"""
    sizes = []
    for k in (n, 2 * n):
        L = Lab(R)
        o = L.new(cls, **cfg)
        for i in range(k):
            step(L, o, i)
        sizes.append(containers(L, o))
    if mangle:
        sizes[0].popitem()
    for k, v in sizes[1].items():
        if sizes[0].get(k) != v:
            return violated(f"{cls.split('.')[-1]}{k} grows with the number of steps: {sizes[0].get(k)} elements after {n}, {v} after {2 * n} steps")
    return holds(f"{len(sizes[0])} containers")


def prof_stats(R, steps, secs, mangle=False):
    """execution_stats and memory_stats of the result, session duration and throughput"""
    L, p = profiled(R, steps)
    L.now.append(const(secs))
    r = L.do(p, "finalize")
    if not steps:
        return worst([violated(f"{nm} without records") if L.entries(L.get(r, nm)) else holds() for nm in ("execution_stats", "memory_stats")])
    st = lambda v: {"mean": const(mean(v) + mangle), "median": const(median(v)), "std_dev": mk("sqrt", const(var(v))) if len(v) > 1 else ZERO, "min": const(min(v)), "max": const(max(v))}
    t, m = [x[1] for x in steps], [Fraction(x[2]) for x in steps]
    s = L.I.call(L.get(r, "get_summary"), [], {}, None, L.st)
    return worst([L.same_tree(L.get(r, "execution_stats"), st(t), "execution_stats"), L.same_tree(L.get(r, "memory_stats"), st(m), "memory_stats"), L.same(L.get(r, "session_duration"), const(secs), "session_duration"),
                  L.same_tree(s, {"session": {"duration_seconds": const(secs), "avg_throughput": const(Fraction(len(steps), secs) if secs else 0)}}, "summary")])


def prof_advice(R, steps, want, sizes=None):
    """number of recommendations"""
    L, p = profiled(R, [] if sizes else [(m, t, r - steps[0][2], j) for m, t, r, j in steps])
    for (m, t, r, j), n in zip(steps, sizes or ()):
        L.do(p, "record_metrics", m, t, const("x" * n) if n < 0 else Tup([ZERO] * 0) if n == 0 else L.lift(["x" * 1024] * n))
    r = L.do(p, "finalize")
    got = L.items(L.get(r, "optimization_recommendations"))
    if any(isinstance(x, Splat) for x in got):
        return undecided("a recommendation depends on a condition the analysis does not decide")
    if not steps:
        return holds() if not got else violated("recommendations without records")
    s = L.I.call(L.get(r, "get_summary"), [], {}, None, L.st)
    if len(got) != want:
        return violated(f"{len(got)} recommendations, required {want}: {[show(L.I.term(x, L.st)) for x in got]}")
    return L.same_tree(s, {"recommendations": const(want)}, "summary")


def prof_cpu(R, mem, cpu):
    """what is not tracked is recorded as zero"""
    L = Lab(R)
    proc = L.I.handlers["psutil.Process"](None, None, None, None)
    L.I.handlers["psutil.Process"] = lambda I, a, k, s: Tup([proc.items[0], Py("cpu_percent", lambda I, a, k, s: sym("cpu"))], "namedtuple", ("memory_info", "cpu_percent"))
    p = L.new(PR + "StreamingProfiler", enable_memory_tracking=mem, enable_cpu_tracking=cpu)
    for i in range(2):
        L.rss.append(const((7 + 2 * i) * MB))
        L.do(p, "record_metrics", "m", 1)
    res = []
    for i, m in enumerate(L.items(L.get(p, "metrics"))):
        for nm, w in (("memory_usage", const((7 + 2 * i) * mem)), *([("memory_delta", const(2 * mem))] if i else []), ("cpu_percent", sym("cpu") if cpu else ZERO), ("timestamp", add(*L.now))):
            res.append(L.same(L.get(m, nm), w, nm))
    return worst(res)


def prof_report(R, mangle=False):
    """the report shows the numbers of the summary"""
    import re
    L, p = profiled(R, [(m, Fraction(t, 8), r, j) for m, t, r, j in (("a", 1, 0, True), ("b", 6, 16, False), ("a", 3, 12, True), ("a", 5, 13, False), ("b", 5, 24, False))], t0=1000)
    L.now.append(const(4))
    mod, node = R.p.need(PR + "create_performance_report")
    txt = L.I.pyval(L.I.term(L.call(L.I.global_value(mod, node.name), L.do(p, "finalize")), L.st))
    lines = txt.split("\n")
    res = []
    for words, v in ((("duration",), 4), (("steps", "total"), 5 + mangle), (("throughput",), 1.25), (("average", "time"), 500), (("median",), 625), (("max", "time"), 750), (("deviation",), 250), (("peak",), 24), (("average", "usage"), 13), (("allocated",), 28), (("efficiency",), 0), (("bottleneck",), 5), (("jit",), 2)):
        hit = [x for x in lines if all(w in x.lower() for w in words)]
        nums = [float(q.replace(",", "")) for x in hit for q in re.findall(r"-?\d[\d,]*(?:\.\d+)?", x)]
        if not hit:
            res.append(violated(f"the report does not show {' '.join(words)}"))
        elif not any(abs(q - v) <= 0.051 for q in nums):
            res.append(violated(f"the report shows {' '.join(words)} {nums}, required {v}"))
    return worst(res + [holds()])


def empty_report(R, after_reset):
    """the report of a session without records is a text, not a failure"""
    L, p = profiled(R, STEPS if after_reset else [])
    if after_reset:
        L.do(p, "reset")
    mod, node = R.p.need(PR + "create_performance_report")
    t = L.I.term(L.call(L.I.global_value(mod, node.name), L.do(p, "finalize")), L.st)
    return holds() if isinstance(L.I.pyval(t), str) else violated(f"the report is {show(t)[:100]}")


@prop("W83")
def profiler(R):
    R.total = True
    w = where_(R, PR + "StreamingProfiler")
    R.rule("records", "record_metrics appends, while enabled, one record with consecutive step number, module, duration, memory use and its change since the previous record; the newest max_history are kept; sizes add up over containers")
    R.rule("summary", "the summaries of finalize() and get_module_summary() are the statistics of the kept records (of that module), in milliseconds and MB")
    R.rule("findings", "bottlenecks are exactly the steps slower than the threshold; a leak is reported exactly when the last ten records grew by more than the threshold")
    R.rule("context", "start_step records once with the time between enter and exit and lets exceptions pass; reset forgets everything")
    R.rule("bounded", "no history grows beyond max_history")
    for lim in (1, 3, 10000):
        R.ob("records", f"max_history={lim}", lambda: prof_records(R, STEPS, lim), w)
        R.ob("summary", f"all modules,max_history={lim}", lambda: prof_summary(R, STEPS, lim), w)
        R.ob("summary", f"per module,max_history={lim}", lambda: prof_module(R, STEPS, lim), w)
    R.ob("records", "disabled at times", lambda: prof_records(R, STEPS, 10000, (0, 3)), w)
    R.ob("records", "sizes", lambda: prof_sizes(R), w)
    for n in (0, 1, 2, 4):
        R.ob("summary", f"{n} steps", lambda: prof_summary(R, STEPS[:n]), w)
    for thr in (100, 1500, Fraction(1000, 3)):
        R.ob("findings", f"bottlenecks above {thr} ms", lambda: prof_bottlenecks(R, thr), w)
    grow = [0] * 3 + list(range(0, 100, 10))
    for nm, rss, thr, want in (("steady", [100] * 12, 50, None), ("few records", [0, 100] * 4, 50, None), ("growing", grow, 50, 90), ("old growth", [0, 100] + [100] * 9, 50, None), ("growth long ago", [0] * 13 + [100] * 11, 50, None), ("growth after a long time", [100] * 20 + [40] * 9 + [95], 50, 55), ("at the threshold", [10] * 5 + [60] * 5, 50, None), ("just above", [10] * 5 + [60] * 5, 49, 50)):
        R.ob("findings", f"leak[{nm}]", lambda: prof_leak(R, rss, thr, want), w)
    for f in (False, True, "jit"):
        R.ob("context", f"{'raising' if f is True else 'compiled' if f else 'plain'}", lambda: prof_context(R, f), w)
    R.ob("context", "reset", lambda: prof_reset(R), w)
    fast = lambda L, p, i: L.do(p, "record_metrics", f"m{i % 2}", Fraction(1, 1000))
    R.ob("bounded", "StreamingProfiler", lambda: bounded_growth(R, PR + "StreamingProfiler", {"max_history": 3}, fast, 8), w)
    R.ob("bounded", "StreamingProfiler[slow steps]", lambda: bounded_growth(R, PR + "StreamingProfiler", {"max_history": 3}, lambda L, p, i: L.do(p, "record_metrics", "m", 1), 8), w)
    R.rule("stats", "execution_stats and memory_stats are mean, median, deviation, minimum and maximum of the kept records; the throughput is steps per second of the session; untracked quantities are zero")
    R.rule("advice", "recommendations are given exactly for a slowest step above three times the mean, more than 100 MB allocated, more than a tenth of the steps compiled, more than half of the inputs above 1 MB and per module whose deviation exceeds half its mean")
    R.rule("report", "create_performance_report shows the numbers of the summary")
    for n, secs in ((0, 1), (1, 2), (2, 0), (7, 3)):
        R.ob("stats", f"{n} steps in {secs} s", lambda: prof_stats(R, STEPS[:n], secs), w)
    for a in (True, False):
        for b in (True, False):
            R.ob("stats", f"memory {'on' if a else 'off'},cpu {'on' if b else 'off'}", lambda: prof_cpu(R, a, b), w)
    one = lambda ts, rs=None, j=(), m=None: [((m or "a" * 99)[i] if m else f"m{i}", Fraction(t, 100), (rs or [10] * 99)[i], i in j) for i, t in enumerate(ts)]
    for nm, st, k, sz in (("steady", one([1] * 10), 0, None), ("slow step", one([1] * 9 + [4]), 1, None), ("below three times the mean", one([1] * 8 + [3]), 0, None), ("exactly three times", one([0, 0, 3]), 0, None),
                          ("allocations", one([1] * 4, [10, 90, 60, 95]), 1, None), ("exactly 100 MB", one([1] * 4, [10, 80, 60, 90]), 0, None), ("compiled", one([1] * 10, None, (1, 5)), 1, None), ("a tenth compiled", one([1] * 10, None, (5,)), 0, None),
                          ("unsteady module", one([1, 5], None, (), "aa"), 1, None), ("steady module", one([4, 5], None, (), "aa"), 0, None), ("two unsteady modules", one([1, 5, 5, 1], None, (), "abab"), 2, None), ("large inputs", one([1] * 3), 1, [1025, 1025, 3]), ("half large inputs", one([1] * 4), 0, [1025, 1025, 1024, 0]), ("nothing", [], 0, None)):
        R.ob("advice", nm, lambda: prof_advice(R, st, k, sz), w)
    R.ob("records", "first-record-delta", lambda: prof_first(R), w)
    R.ob("report", "numbers", lambda: prof_report(R), w)
    for z in (False, True):
        R.ob("report", "after reset" if z else "nothing recorded", lambda: empty_report(R, z), w)
    R.control(lambda: prof_stats(R, STEPS, 3, True))
    R.control(lambda: prof_advice(R, one([1] * 10), 1))
    R.control(lambda: prof_report(R, True))
    R.control(lambda: prof_records(R, STEPS, mangle=True))
    R.control(lambda: prof_summary(R, STEPS, mangle=True))
    R.control(lambda: bounded_growth(R, PR + "StreamingProfiler", {"max_history": 3}, fast, 8, True))


# --------------------------------------------------------------------------- memory tracker
TR = MT + "MemoryTracker"


def tracked(R, mem, cfg=(), off=(), force=(), modules=("m",), again=False):
    """one take_snapshot call per entry of mem (process memory in MB); again: after other ones and a reset"""
    L = Lab(R)
    o = L.new(TR, **dict(cfg))
    if again:
        for i in range(7):
            L.rss.append(const((300 + 50 * i) * MB))
            L.do(o, "take_snapshot", "old")
        L.do(o, "reset")
    out = []
    for n, r in enumerate(mem):
        L.rss.append(const(Fraction(r) * MB))
        if n in off:
            L.do(o, "disable")
        out.append(L.do(o, "take_snapshot", modules[n % len(modules)], **({"force": True} if n in force else {})))
        if n in off:
            L.do(o, "enable")
    return L, o, out


def taken(mem, interval, limit, off=(), force=(), modules=("m",)):
    """(step, module, memory, change) of every snapshot and the number of counted calls"""
    r, step, last = [], 0, None
    for n, m in enumerate(mem):
        if n in off:
            r.append(None)
            continue
        step += 1
        if n in force or step % interval == 0:
            r.append((step, modules[n % len(modules)], Fraction(m), Fraction(m) - last if last is not None else Fraction(0)))
            last = Fraction(m)
        else:
            r.append(None)
    return r, step


MEM = [100, 104, 101, 120, 90, 95, Fraction(191, 2), 96, 140, 141, 142, 80]


def snaps(R, interval, limit, off=(), force=(), mangle=False, again=False):
    kw = dict(snapshot_interval=interval, max_snapshots=limit)
    L, o, out = tracked(R, MEM, kw.items(), off, force, ("a", "b", "a"), again)
    want, steps = taken(MEM, interval, limit, off, force, ("a", "b", "a"))
    res = []

    def entry(g, w):
        for nm, v in zip(("step", "module_name", "process_memory_mb", "memory_delta_mb"), w):
            res.append(L.same(L.get(g, nm), const(v + 1 if mangle and nm == "step" else v), f"{nm} of the snapshot of step {w[0]}"))

    for g, w in zip(out, want):
        if (g == NONE) != (w is None):
            return violated(f"{'no' if w else 'a'} snapshot at a call that {'must' if w else 'must not'} give one")
        if w:
            entry(g, w)
    kept = [w for w in want if w][-limit:]
    have = list(L.items(L.get(o, "snapshots")))
    if len(have) != len(kept):
        return violated(f"{len(have)} snapshots kept, required {len(kept)}")
    for g, w in zip(have, kept):
        entry(g, w)
    res.append(L.same(L.get(o, "step_count"), const(steps), "step_count"))
    if again:
        s = L.do(o, "get_memory_summary")
        res.append(L.same_tree(s, {"session": {"duration_seconds": ZERO, "total_steps": const(steps)}}, "summary after reset"))
        if "error" not in L.entries(L.do(o, "get_module_memory_analysis", "old")):
            res.append(violated("a module seen before the reset is still analysed"))
    return worst(res)


def mem_summary(R, interval, limit, n=None, module=False, reset=False):
    mem = MEM[:n]
    mods = ("a", "b", "a")
    L, o, _ = tracked(R, mem, dict(snapshot_interval=interval, max_snapshots=limit, leak_detection_threshold_mb=10 ** 6).items(), (), (), mods)
    want, steps = taken(mem, interval, limit, (), (), mods)
    kept = [w for w in want if w][-limit:]
    if reset:
        L.do(o, "reset")
        kept = []
    if module:
        res = []
        for m in ("a", "b", "zz"):
            s = L.do(o, "get_module_memory_analysis", m)
            k = [w[2] for w in kept if w[1] == m]
            if not k:
                if "error" not in L.entries(s):
                    return violated(f"an analysis of module {m} without snapshots")
                continue
            res.append(L.same_tree(s, {"module_name": const(m), "snapshots_count": const(len(k)), "memory_usage": {"current_mb": const(k[-1]), "peak_mb": const(max(k)), "avg_mb": const(mean(k)), "growth_mb": const(k[-1] - k[0])}}, f"analysis of module {m}"))
        return worst(res) if res else holds()
    if reset:
        for nm in ("module_memory_usage", "state_memory_history", "tracked_arrays", "array_lifecycle"):
            if L.entries(L.get(o, nm)):
                return violated(f"{nm} after reset")
    s = L.do(o, "get_memory_summary")
    if not kept:
        return holds() if "error" in L.entries(s) else violated("a summary without snapshots")
    k = [w[2] for w in kept]
    return L.same_tree(s, {"session": {"total_snapshots": const(len(k)), "total_steps": const(steps)}, "current_usage": {"process_memory_mb": const(k[-1])},
                           "statistics": {"peak_memory_mb": const(max(k)), "min_memory_mb": const(min(k)), "avg_memory_mb": const(mean(k)), "total_growth_mb": const(k[-1] - k[0])}}, "summary")


def mem_state(R, state, want):
    """sizes of parameters, state and buffers of the given variables (in bytes, given as MB)"""
    L = Lab(R)
    o = L.new(TR, snapshot_interval=1)
    s = L.do(o, "take_snapshot", "m", state)
    mb = lambda t: mk("div", mk("div", t, const(1024)), const(1024))
    return worst([L.same(L.get(s, nm), mb(w) if isinstance(w, T) else const(Fraction(w, MB)), nm) for nm, w in zip(("state_variables_mb", "parameters_mb", "buffers_mb"), want)])


def mem_leak(R, mem, interval, thr, mangle=False):
    """every leak record: severity, growth in MB, rate in MB per step, first and last step"""
    L, o, _ = tracked(R, [m for m in mem for _ in range(interval)], dict(snapshot_interval=interval, leak_detection_threshold_mb=thr).items())
    want = []
    for n in range(5, len(mem) + 1):
        y = [Fraction(v) for v in mem[:n][-10:]]
        x = [Fraction(interval * i) for i in range(n - len(y) + 1, n + 1)]
        r, g = slope(x, y), y[-1] - y[0]
        if r > Fraction(thr) / 100 and g > thr:
            want.append(("critical" if g > 100 else "high" if g > 50 else "medium" if g > 20 else "low", g, r, int(x[0]), int(x[-1])))
    got = list(L.items(L.get(o, "detected_leaks")))
    for g in got:
        if L.items(L.get(g, "affected_modules")) != [const("m")]:
            return violated(f"affected modules {L.I.term(L.get(g, 'affected_modules'), L.st)}")
    s = L.do(o, "get_memory_summary")
    if len(got) != len(want):
        return violated(f"{len(got)} leaks recorded for memory {[str(x) for x in mem]} every {interval} steps, threshold {thr} MB, required {len(want)}")
    crit, high = (sum(1 for q in want if q[0] == c) for c in ("critical", "high"))
    return worst([L.same(L.get(g, nm), const(v + 1 if mangle and nm[0] == "g" else v), nm) for g, q in zip(got, want) for nm, v in zip(("severity", "total_leaked_mb", "growth_rate_mb_per_step", "first_detected_step", "last_detected_step"), q)]
                 + [L.same_tree(s, {"leaks": {"total_detected": const(len(want)), "critical_leaks": const(crit), "high_leaks": const(high)}}, "summary")])


def mem_arrays(R, counts):
    """counts and sizes of the arrays the tracker knows; a leak when they grow by more than a hundred over ten snapshots"""
    L = Lab(R)
    o = L.new(TR, snapshot_interval=1)
    L.rss.append(const(10 * MB))
    res, want = [], []
    for t, n in enumerate(counts):
        L.I.setattr(o, "tracked_arrays", L.lift({i: {"size_bytes": (i % 3) * 2 ** 18} for i in range(n)}), L.st)
        s = L.do(o, "take_snapshot", "ab"[t % 2])
        size = lambda k: Fraction(sum(i % 3 for i in range(k)), 4)
        for nm, v in (("jax_arrays_count", n), ("jax_arrays_size_mb", size(n)), ("arrays_delta_count", n - counts[t - 1] if t else 0)):
            res.append(L.same(L.get(s, nm), const(v), f"{nm} of snapshot {t + 1}"))
        c = counts[: t + 1][-10:]
        if len(c) >= 5 and c[-1] - c[0] > 100:
            want.append((t - len(c) + 2, t + 1, sum(map(size, c[-3:])) / 3))
    e = L.do(o, "get_memory_summary")
    res.append(L.same_tree(e, {"current_usage": {"jax_arrays_count": const(counts[-1]), "jax_arrays_size_mb": const(size(counts[-1]))}, "statistics": {"peak_arrays_count": const(max(counts)), "avg_arrays_count": const(mean(counts))}}, "summary"))
    got = list(L.items(L.get(o, "detected_leaks")))
    if len(got) != len(want):
        return violated(f"{len(got)} leaks recorded for array counts {counts}, required {len(want)}")
    for g, (a, b, m) in zip(got, want):
        res += [L.same(L.get(g, nm), const(v), nm) for nm, v in (("leak_type", "growing_arrays"), ("first_detected_step", a), ("last_detected_step", b), ("total_leaked_mb", m))]
        if [L.I.pyval(x) for x in L.items(L.get(g, "affected_modules"))] != ["a", "b"]:
            res.append(violated("affected modules of an array leak"))
    return worst(res)


def shown(txt, what):
    """[(words, number)]: a line with all the words shows the number"""
    import re
    res = []
    for words, v in what:
        hit = [x for x in txt.split("\n") if all(w in x.lower() for w in words)]
        nums = [float(q.replace(",", "")) for x in hit for q in re.findall(r"-?\d[\d,]*(?:\.\d+)?", x)]
        if not hit:
            res.append(violated(f"the report does not show {' '.join(words)}"))
        elif not any(abs(q - v) <= 0.0501 for q in nums):
            res.append(violated(f"the report shows {' '.join(words)} {nums}, required {float(v)}"))
    return worst(res + [holds()])


def mem_report(R, mem, mangle=False):
    L, o, _ = tracked(R, mem, dict(snapshot_interval=1, max_snapshots=6).items())
    L.I.setattr(o, "session_start_time", const(0), L.st)
    L.now[:] = [const(40)]
    txt = L.I.pyval(L.I.term(L.do(o, "generate_memory_report"), L.st))
    k = mem[-6:]
    got = L.items(L.get(o, "detected_leaks"))
    sev = [L.I.pyval(L.get(g, "severity")) for g in got]
    what = [(("duration",), 40), (("snapshots",), len(k)), (("steps:",), len(mem) + mangle), (("process memory",), mem[-1]), (("peak memory",), max(k)), (("average memory",), mean(k)), (("total growth",), k[-1] - k[0])]
    if got:
        what += [(("total leaks",), len(got)), (("critical:",), sev.count("critical")), (("high",), sev.count("high"))]
        if txt.lower().count("critical leak (") != min(3, sev.count("critical")):
            return violated(f"the report details {txt.lower().count('critical leak (')} critical leaks of {sev.count('critical')}")
        for g, c in zip(got, sev):
            if c == "critical":
                what += [(("leaked",), L.I.pyval(L.get(g, "total_leaked_mb"))), (("rate",), L.I.pyval(L.get(g, "growth_rate_mb_per_step")))]
                break
    elif "no memory leak" not in txt.lower():
        return violated("the report does not say that there is no leak")
    return shown(txt, what)


def mem_decorator(R, detailed, single, mangle=False):
    L = Lab(R)
    calls = []
    fn, log = L.streaming(single=single, name="f")
    mon = L.new(TR, snapshot_interval=1)
    real = L.get(mon, "take_snapshot")

    def rec(I, a, k, s):
        names = ("module_name", "state", "force")
        d = {**dict(zip(names, a)), **k}
        calls.append(({q: I.term(v, s) for q, v in d.items()}, sum(1 for x in log if x[0] == "apply")))
        return NONE

    L.I.setattr(mon, "take_snapshot", Py("take_snapshot", rec), L.st)
    mod, node = R.p.need(MT + "track_memory_usage")
    deco = L.call(L.I.global_value(mod, node.name), mon, "mod", **({} if detailed else {"detailed_state_analysis": False}))
    w = L.call(deco, fn)
    for i in range(2):
        L.do(w, "apply", A("p"), A("s"), A("k"), A(f"x{i}"))
    if len(calls) != 4:
        return violated(f"{len(calls)} snapshots asked for at two calls, required 4")
    res = []
    for i, (d, done) in enumerate(calls):
        if done != (i + 1) // 2:
            return violated(f"snapshot {i + 1} is taken {'after' if done > (i + 1) // 2 else 'before'} the call")
        res.append(L.same(d.get("module_name"), const("mod"), "module"))
        st = d.get("state", NONE)
        want = app("NEW", const(i // 2), A("p"), A("s"), A("k"), A(f"x{i // 2}")) if i % 2 and detailed and not single else NONE
        if mangle and i == 3:
            want = NONE
        if single and want == NONE and st != NONE and not i % 2:
            res.append(violated("a state before the call"))
        elif not single or not i % 2:
            res.append(L.same(st, want, f"state of snapshot {i + 1}"))
    return worst(res)


def slope(x, y):
    mx, my = mean(x), mean(y)
    return sum((a - mx) * (b - my) for a, b in zip(x, y)) / sum((a - mx) ** 2 for a in x)


@prop("W84")
def memory(R):
    R.total = True
    w = where_(R, TR)
    R.rule("snapshots", "every call of take_snapshot is counted while enabled; a snapshot is taken at multiples of snapshot_interval or when forced, carries step, module, process memory and its change since the previous snapshot, and the newest max_snapshots are kept")
    R.rule("sizes", "the sizes of parameters, state and buffers are the sums over the leaves of the variables given")
    R.rule("summary", "get_memory_summary and get_module_memory_analysis are the statistics of the kept snapshots (of that module); reset forgets everything")
    R.rule("leaks", "a leak is recorded at a snapshot exactly when the last ten snapshots (at least five) grow by more than the threshold at a rate above a hundredth of it per step; its rate is the least squares slope in MB per step")
    R.rule("bounded", "no history grows beyond its configured maximum")
    for i, lim in ((1, 1000), (3, 1000), (10, 1000), (1, 4), (2, 3), (20, 5)):
        R.ob("snapshots", f"interval {i},max_snapshots={lim}", lambda: snaps(R, i, lim), w)
        R.ob("summary", f"interval {i},max_snapshots={lim}", lambda: mem_summary(R, i, lim), w)
        R.ob("summary", f"per module,interval {i},max_snapshots={lim}", lambda: mem_summary(R, i, lim, module=True), w)
    R.ob("snapshots", "disabled at times", lambda: snaps(R, 2, 100, off=(1, 4, 5)), w)
    R.ob("snapshots", "forced", lambda: snaps(R, 4, 100, force=(0, 1, 4)), w)
    for n in (0, 1, 2):
        R.ob("summary", f"{n} calls", lambda: mem_summary(R, 1, 9, n), w)
    R.ob("summary", "after reset", lambda: mem_summary(R, 1, 9, reset=True), w)
    for i, f in ((1, ()), (3, ()), (5, (1,))):
        R.ob("summary", f"again after reset,interval {i}", lambda: snaps(R, i, 1000, force=f, again=True), w)
    R.ob("summary", "arrays", lambda: mem_arrays(R, [5, 1, 2, 2, 0, 3]), w)
    R.ob("leaks", "arrays", lambda: mem_arrays(R, [0, 3, 99, 100, 40, 100, 101, 60, 102, 101, 103, 150, 203]), w)
    R.rule("report", "generate_memory_report shows the numbers of the summary and up to three critical leaks")
    R.ob("report", "numbers", lambda: mem_report(R, [100, 104, 103, 102]), w)
    R.ob("report", "leaks", lambda: mem_report(R, [100, 130, 190, 240, 320, 380, 400]), w)
    R.control(lambda: mem_report(R, [100, 104, 103, 102], True))
    R.rule("decorator", "track_memory_usage calls take_snapshot of its module before and after each apply, the second time with the new state of a (result, state) pair unless told otherwise")
    for d in (True, False):
        for single in (False, True):
            R.ob("decorator", f"detailed={d},{'plain result' if single else 'pair'}", lambda: mem_decorator(R, d, single), w)
    R.control(lambda: mem_decorator(R, True, False, True))
    nb = lambda n: sym(n, array=1, hasattr=("nbytes", "shape"))
    B = lambda n: mk("attr", nb(n), "nbytes")
    for nm, s, want in (("none", None, (0, 0, 0)), ("params and state", {"params": {"w": nb("w"), "b": nb("b")}, "state": {"mean": nb("m"), "x_buffer": nb("q"), "ringBUFFER": nb("z")}}, (add(add(B("m"), B("q")), B("z")), add(B("w"), B("b")), add(B("q"), B("z")))),
                        ("other collections", {"params": {"w": nb("w")}, "ewm": {"mean": nb("m"), "n": 3}, "aux": 1}, (add(B("m"), const(16)), B("w"), 0)), ("collections of Flax", {"params": {"w": nb("w")}, "batch_stats": {"mean": nb("m")}, "cache": {"k": nb("q")}, "intermediates": 1, "constants": 1}, (add(add(B("m"), B("q")), const(16)), B("w"), 0)), ("array", nb("m"), (B("m"), 0, 0)), ("numbers", [1, Fraction(1, 2)], (16, 0, 0))):
        R.ob("sizes", nm, lambda: mem_state(R, s, want), w)
    up = list(range(100, 220, 10))
    for nm, mem, i, thr in (("steady", [100] * 12, 1, 10), ("too few", up[:4], 1, 10), ("five", up[:5], 1, 10), ("growing", up, 1, 10), ("every third", up, 3, 10), ("below the threshold", [100, 101, 102, 103, 104, 105], 1, 10),
                            ("at the threshold", [100, 104, 106, 108, 110, 112], 1, 10), ("critical", [x * 3 for x in up], 2, 10), ("low", [100, 103, 106, 109, 112], 1, 10), ("slow", [100, 103, 106, 109, 112], 40, 10), ("jump", [50, 100] + [100] * 11, 1, 10), ("falling", up[::-1], 1, 10), ("irregular", MEM + MEM, 1, 3), ("irregular, every second", MEM, 2, 20)):
        R.ob("leaks", nm, lambda: mem_leak(R, mem, i, thr), w)
    R.control(lambda: mem_leak(R, up, 1, 10, True))

    def grow(L, o, i):
        L.rss.append(const(100 * MB))
        L.do(o, "take_snapshot", f"m{i % 2}")
    R.ob("bounded", "MemoryTracker", lambda: bounded_growth(R, TR, {"snapshot_interval": 1, "max_snapshots": 3}, grow, 8), w)
    R.control(lambda: snaps(R, 2, 100, mangle=True))
