"""Agent/environment loops: feedback module, gym_unroll, callbacks, stateful agents and environments."""
from . import prop
from ..interp import NTCls, PDict, PList
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r40_unroll import Model, TWS, is_none_term, distinct
from .r50_optim import stepper

HF = "wax.modules.gym_feedback.GymFeedback"
app = lambda f, *a: mk("app", f, *a)


def interp(R):
    I = Interp(R.p)
    I.scalars = I.concrete = True
    R.interps.append(I)
    return I, S()


# ------------------------------------------------------------------ Haiku GymFeedback
def feedback(R, ret_obs, ret_act, given, steps=3, mangle=False, tree=False):
    """the agent and the environment are stateful: their n-th calls are different unknown functions"""
    trace = []

    def agent(I, a, k, s):
        o = I.term(a[0], s)
        n = sum(1 for t, _ in trace if t == "agent")
        trace.append(("agent", (o,)))
        act = Tup([app("ACT", const(n), o), app("ACTB", const(n), o)]) if tree else app("ACT", const(n), o)
        return Tup([act, app("AINFO", const(n), o)])

    def env(I, a, k, s):
        t = [I.term(x, s) for x in a]
        n = sum(1 for q, _ in trace if q == "env")
        trace.append(("env", tuple(t)))
        return Tup([app("RW", const(n), *t), app("OBS", const(n), *t), app("EINFO", const(n), *t)])

    cfg = {"agent": Py("agent", agent), "env": Py("env", env)}
    if ret_obs is not None:
        cfg["return_obs"] = TRUE if ret_obs else FALSE
        cfg["return_action"] = TRUE if ret_act else FALSE
    if given:
        cfg["init_action"] = sym("a0")
    I, st, call = stepper(R, HF, cfg)
    I.scalars = I.concrete = True
    na = ne = 0
    act = sym("a0")
    want_trace = []
    res = []
    for t in range(steps):
        raw = sym(f"raw{t}")
        out = call([raw])
        if t == 0 and not given:
            act = app("ACT", const(0), raw)
            if tree:
                act = mk("tuple", act, app("ACTB", const(0), raw))
            want_trace.append(("agent", (raw,)))
            na = 1
        eargs = (act, raw)
        want_trace.append(("env", eargs))
        rw, obs, einfo = [app(x, const(ne), *eargs) for x in ("RW", "OBS", "EINFO")]
        ne += 1
        want_trace.append(("agent", (obs,)))
        act2 = app("ACT", const(na), obs)
        if tree:
            act2 = mk("tuple", act2, app("ACTB", const(na), obs))
        ainfo = app("AINFO", const(na), obs)
        na += 1
        if not mangle:
            act = act2
        o, info = I.unpack(out, 2, st)
        w = {"reward": rw}
        if ret_obs:
            w["obs"] = obs
        if ret_act:
            w["action"] = act2
        if not isinstance(o, Tup) or o.names is None:
            return undecided(f"output {o}")
        if set(o.names) != set(w):
            return violated(f"output fields {list(o.names)}, required {list(w)}")
        for nm in w:
            res.append(eq_struct(R, I, st, I.term(I.getattr(o, nm, st), st), w[nm], (), f"{nm} of step {t + 1}"))
        res.append(eq_struct(R, I, st, I.getattr(info, "env", st), einfo, (), f"env info of step {t + 1}"))
        res.append(eq_struct(R, I, st, I.getattr(info, "agent", st), ainfo, (), f"agent info of step {t + 1}"))
        if any(x.status != "holds" for x in res):
            return worst(res)
    if trace != want_trace:
        return violated(f"calls of agent and environment: {[(a, tuple(map(show, b))) for a, b in trace]}") if not mangle else worst(res)
    return worst(res)


# ------------------------------------------------------------------ gym_unroll
class World:
    """agent, environment and callbacks that log every call; the n-th call of each is its own unknown function"""

    def __init__(self, I, st, done_at, plain=False):
        """plain: observations, actions and rewards are the number zero"""
        self.I, self.trace, self.done_at = I, [], done_at
        self.n = {"agent": 0, "step": 0, "reset": 0}
        zero = plain if isinstance(plain, T) else const(0)

        def log(nm, vals, s):
            self.trace.append((nm, *[I.term(v, s) if not is_obj(v) and (isinstance(v, (T, Tup)) or isinstance(v, Ref) and isinstance(I.get(s, v), (PDict, PList))) else "obj" for v in vals]))

        def is_obj(v):
            return v is self.env or v is self.agent

        def agent(I2, a, k, s):
            log("agent", a, s)
            self.n["agent"] += 1
            return zero if plain else app("ACT", const(self.n["agent"] - 1), I2.term(a[0], s))

        def reset(I2, a, k, s):
            log("reset", a, s)
            return zero if plain else sym("obs_reset")

        def step(I2, a, k, s):
            log("step", a, s)
            n = self.n["step"]
            self.n["step"] += 1
            x = I2.term(a[0], s)
            o, r = (zero, zero) if plain else (app("OBS", const(n), x), app("RW", const(n), x))
            return Tup([o, r, TRUE if n + 1 >= done_at else FALSE, app("INFO", const(n), x)])

        def close(I2, a, k, s):
            log("close", a, s)
            return NONE

        self.agent = Py("agent", agent)
        self.env = Tup([Py("reset", reset), Py("step", step), Py("close", close)], "namedtuple", ("reset", "step", "close"), NTCls("Env", ("reset", "step", "close")))
        self.log = log

    def callback(self, nm, which, stop_at=None, val=TRUE):
        """one of the four callback functions, logging its arguments"""
        count = [0]

        def cb(I, a, k, s):
            self.log(f"{nm}.{which}", a, s)
            count[0] += 1
            if stop_at is not None and count[0] >= stop_at:
                return val
            return FALSE if stop_at is not None else NONE

        return Py(f"{nm}.{which}", cb)


WHICH = ("on_train_start", "on_act", "on_step", "on_train_end")


def loop_spec(done_at, given, cbs, plain=False):
    """cbs: [(name, {which: stop_at or None})] -> (trace, final state fields)"""
    tr = []
    obs = sym("obs_given")
    if not given:
        tr.append(("reset",))
        obs = sym("obs_reset")
    if plain:
        obs = const(0)
    for nm, w in cbs:
        if "on_train_start" in w:
            tr.append((nm + ".on_train_start", "obj", "obj", obs))
    n = 0
    while True:
        tr.append(("agent", obs))
        act = const(0) if plain else app("ACT", const(n), obs)
        for nm, w in cbs:
            if "on_act" in w:
                tr.append((nm + ".on_act", "obj", "obj", obs, act))
        tr.append(("step", act))
        obs, rw, info = [app(x, const(n), act) for x in ("OBS", "RW", "INFO")]
        if plain:
            obs = rw = const(0)
        n += 1
        done = n >= done_at
        fields = (rw, obs, act, TRUE if done else FALSE, info)
        stop = done
        for nm, w in cbs:
            if "on_step" in w:
                tr.append((nm + ".on_step", "obj", "obj", fields))
                if w["on_step"] is not None and n >= w["on_step"]:
                    stop = True
        if stop:
            break
    for nm, w in cbs:
        if "on_train_end" in w:
            tr.append((nm + ".on_train_end", "obj", "obj"))
    tr.append(("close",))
    return tr, fields


FIELDS = ("rw", "obs", "action", "done", "info")


def same_trace(got, want, unordered=False):
    def norm(e):
        return tuple(tuple(x.args) if isinstance(x, T) and x.op == "tuple" else x for x in e)

    g, w = [norm(x) for x in got], [norm(x) for x in want]
    if g == w:
        return holds()
    for i, (a, b) in enumerate(zip(g, w)):
        if a != b:
            return violated(f"call {i + 1} is {fmt(a)}, required {fmt(b)}")
    if len(g) < len(w):
        return violated(f"the loop ends after {len(g)} calls, required next {fmt(w[len(g)])}")
    return violated(f"superfluous call {fmt(g[len(w)])}")


def fmt(e):
    return f"{e[0]}({', '.join(show(x) if isinstance(x, T) else str(x) if not isinstance(x, tuple) else '(' + ', '.join(map(show, x)) + ')' for x in e[1:])})"


def loop(R, done_at, given, cbs, how="local", wrong=False, via=None, plain=False):
    I, st = interp(R)
    w = World(I, st, done_at, plain)
    kw = {"obs": const(0) if plain else sym("obs_given")} if given else {}
    fns = [Tup([w.callback(nm, x, q.get(x)) if x in q else NONE for x in WHICH]) for nm, q in cbs]
    if how == "local" and (cbs or True):
        kw["callbacks"] = I.alloc(st, PList(fns)) if cbs else NONE
    args = [w.agent, w.env]
    out = run_function(R, "wax.gym.gym_unroll.gym_unroll", args, kw, I=I, st=st)
    want, fields = loop_spec(done_at + (1 if wrong else 0), given, cbs, plain)
    res = [same_trace(w.trace, want)]
    if res[0].status == "holds":
        for nm, v in zip(FIELDS, fields):
            res.append(eq_struct(R, I, out.st, I.getattr(out.out, nm, out.st), v, (), f"final state field {nm}"))
    return worst(res)


@prop("W70")
def feedback_rule(R):
    R.total = True
    R.rule("feedback", "each step: environment(previous action, raw observation) gives reward and observation, then agent(observation) gives the action returned and remembered for the next step; the first previous action is init_action, else the agent's answer to the first raw observation")
    w = where_(R, HF)
    for given in (False, True):
        for ro, ra in ((None, None), (True, False), (False, True), (True, True)):
            R.ob("feedback", f"{HF}[init_action={'given' if given else 'none'},return_obs={ro},return_action={ra}]", lambda: feedback(R, ro, ra, given), w)
    R.ob("feedback", f"{HF}[structured actions]", lambda: feedback(R, True, True, False, tree=True), w)
    R.control(lambda: feedback(R, True, True, True, mangle=True))


@prop("W71")
def unroll_rule(R):
    R.total = True
    R.rule("loop", "reset (unless obs is given), start callbacks, then repeatedly agent(obs), act callbacks, env.step(action), step callbacks, until done or a step callback returns true; then end callbacks and exactly one close; the last loop state is returned")
    d = "wax.gym.gym_unroll.gym_unroll"
    w = where_(R, d)
    full = {x: None for x in WHICH}
    sets = [[], [("A", full)], [("A", full), ("B", full)], [("A", {"on_step": 2}), ("B", {"on_step": None, "on_train_end": None})], [("A", {"on_step": None, "on_act": None}), ("B", {"on_step": 1}), ("C", {"on_train_start": None, "on_step": 3})]]
    for i, cbs in enumerate(sets):
        for done_at in (1, 3):
            for given in (False, True):
                R.ob("loop", f"{d}[callbacks {i},done after {done_at},obs {'given' if given else 'from reset'}]", lambda: loop(R, done_at, given, cbs), w)
    for given in (False, True):
        R.ob("loop", f"{d}[all values zero,obs {'given' if given else 'from reset'}]", lambda: loop(R, 3, given, sets[2], plain=True), w)
    R.control(lambda: loop(R, 2, False, [], wrong=True))


# ------------------------------------------------------------------ callbacks
CB = "wax.gym.callbacks.callbacks.Callback"
GU = "wax.gym.gym_unroll.gym_unroll"


def cls_of(I, R, d):
    mod, node = R.p.need(d)
    return I.global_value(mod, node.name)


class Stage:
    """one analysed program: loops run one after another on the same interpreter state"""

    def __init__(self, R):
        self.R = R
        self.I, self.st = interp(R)
        self.log = []
        self.worlds = 0

    def make(self, d, *a, **k):
        return self.I.call(cls_of(self.I, self.R, d), list(a), k, None, self.st)

    def callback(self, nm, which=WHICH):
        w = World(self.I, self.st, 1)
        w.trace = self.log
        return self.make(CB, **{x: w.callback(nm, x) for x in which})

    def call(self, o, name, *a, **k):
        return self.I.call(self.I.getattr(o, name, self.st), list(a), k, None, self.st)

    def loop(self, done_at=1, callbacks=None, inner=None, fail=False, agent=None, plain=False):
        w = World(self.I, self.st, done_at, plain)
        w.trace = self.log
        if inner is not None:
            old = w.agent

            def act(I, a, k, s):
                if w.n["agent"] == 0:
                    w.n["agent"] = 0
                    inner(s)
                return I.call(old, a, k, None, s)

            w.agent = Py("agent", act)
        if fail:
            names = list(w.env.names)
            items = list(w.env.items)

            def bad(I, a, k, s):
                raise AbsRaise("RuntimeError", sure=True)

            items[names.index("step")] = Py("step", bad)
            w.env = Tup(items, "namedtuple", w.env.names, w.env.cls)
        kw = {} if callbacks is None else {"callbacks": callbacks}
        mod, node = self.R.p.need(GU)
        fn = self.I.global_value(mod, node.name)
        try:
            return self.I.call(fn, [agent if agent is not None else w.agent, w.env], kw, None, self.st)
        except AbsRaise:
            if not fail:
                raise
            return None

    def run(self, st):
        old, self.st = self.st, st
        return old

    def fired(self):
        """callbacks called since the last call of this method"""
        out = [e[0] for e in self.log if "." in e[0]]
        del self.log[:]
        return out


ONCE = lambda *nms: [f"{n}.{w}" for w in WHICH for n in nms]


def expect(got, want, what):
    if got == want:
        return holds()
    return violated(f"{what}: callbacks called {got}, required {want}")


def scope_with(R, wrong=False):
    s = Stage(R)
    c = s.callback("A")
    res = [expect((s.loop(), s.fired())[1], [], "before the with block")]
    r = s.call(c, "__enter__")
    if r is not c and not (isinstance(r, Ref) and r.i == c.i):
        res.append(violated(f"entering the callback gives {r}, not the callback"))
    res.append(expect((s.loop(), s.fired())[1], ONCE("A"), "inside the with block"))
    res.append(expect((s.loop(), s.fired())[1], ONCE("A"), "inside the with block, second loop"))
    s.call(c, "__exit__", NONE, NONE, NONE)
    res.append(expect((s.loop(), s.fired())[1], ONCE("A") if wrong else [], "after the with block"))
    return worst(res)


def scope_register(R):
    s = Stage(R)
    c = s.callback("A")
    s.call(c, "register")
    res = [expect((s.loop(), s.fired())[1], ONCE("A"), "after register")]
    d = s.callback("B")
    s.call(d, "__enter__")
    both = (s.loop(), s.fired())[1]
    res.append(expect(sorted(both), sorted(ONCE("A", "B")), "with a registered and an entered callback"))
    s.call(d, "__exit__", NONE, NONE, NONE)
    res.append(expect((s.loop(), s.fired())[1], ONCE("A"), "after the inner block"))
    s.call(c, "unregister")
    res.append(expect((s.loop(), s.fired())[1], [], "after unregister"))
    return worst(res)


def scope_explicit(R, empty):
    """explicitly given callbacks replace the active ones"""
    s = Stage(R)
    c, d = s.callback("A"), s.callback("B")
    s.call(c, "register")
    cbs = s.I.alloc(s.st, PList([] if empty else [s.I.getattr(d, "_callback", s.st)]))
    res = [expect((s.loop(callbacks=cbs), s.fired())[1], [] if empty else ONCE("B"), "explicit callbacks")]
    res.append(expect((s.loop(), s.fired())[1], ONCE("A"), "next loop without explicit callbacks"))
    return worst(res)


def scope_nested(R):
    s = Stage(R)
    s.call(s.callback("A"), "register")
    inner_fired = []

    def inner(st):
        old = s.run(st)
        keep = list(s.log)
        del s.log[:]
        s.loop()
        inner_fired.extend(s.fired())
        s.log.extend(keep)
        s.run(old)

    out = (s.loop(inner=inner), s.fired())[1]
    return worst([expect(inner_fired, [], "loop nested in the agent"), expect(out, ONCE("A"), "outer loop"), expect((s.loop(), s.fired())[1], ONCE("A"), "next loop")])


def scope_twice(R):
    """a callback entered again inside its own block: both blocks are left without an error and it is not active afterwards"""
    s = Stage(R)
    c = s.callback("A")
    s.call(c, "__enter__")
    s.call(c, "__enter__")
    res = [expect((s.loop(), s.fired())[1], ONCE("A"), "inside both blocks")]
    s.call(c, "__exit__", NONE, NONE, NONE)
    s.call(c, "__exit__", NONE, NONE, NONE)
    res.append(expect((s.loop(), s.fired())[1], [], "after both blocks"))
    return worst(res)


def scope_tuple(R):
    s = Stage(R)
    w = World(s.I, s.st, 1)
    w.trace = s.log
    fns = {x: w.callback("A", x) for x in WHICH}
    cbs = Tup([fns["on_train_start"], NONE, fns["on_step"], fns["on_train_end"]])
    b = s.callback("B")
    m = s.make("wax.gym.callbacks.callbacks.add_callbacks", cbs, b)
    s.call(m, "__enter__")
    both = ONCE("A", "B")
    both.remove("A.on_act")
    got = (s.loop(), s.fired())[1]
    res = [expect([x for x in got if x[:2] == n], [x for x in both if x[:2] == n], "inside the block") for n in ("A.", "B.")]
    s.call(m, "__exit__", NONE, NONE, NONE)
    res.append(expect((s.loop(), s.fired())[1], [], "after the block"))
    return worst(res)


def scope_fail(R):
    s = Stage(R)
    s.call(s.callback("A"), "register")
    s.loop(fail=True)
    s.fired()
    return expect((s.loop(), s.fired())[1], ONCE("A"), "loop after one that raised")


def partial_cb(R, which):
    s = Stage(R)
    c = s.callback("A", which)
    s.call(c, "__enter__")
    return expect((s.loop(), s.fired())[1], [f"A.{w}" for w in which], f"callback with {which}")


def stop_cb(R, n, done_at, wrong=False, plain=False):
    s = Stage(R)
    c = s.make("wax.gym.callbacks.stop.Stop", const(n))
    s.call(c, "__enter__")
    s.loop(done_at=done_at, plain=plain)
    k = sum(1 for e in s.log if e[0] == "step")
    w = min(n, done_at) + (1 if wrong else 0)
    return holds() if k == w else violated(f"Stop({n}) in a loop that is done after {done_at} steps: {k} steps, required {w}")


def record(R, steps, ret_obs, ret_act, tree=False, wrong=False, plain=False):
    """the environment is done at step steps + 1; that step is not recorded"""
    s = Stage(R)
    kw = {}
    if ret_obs is not None:
        kw = {"return_obs": TRUE if ret_obs else FALSE, "return_action": TRUE if ret_act else FALSE}
    c = s.make("wax.gym.callbacks.record.Record", **kw)
    s.call(c, "__enter__")
    ag = None
    if tree:
        n = [0]

        def agent(I, a, k, st):
            n[0] += 1
            o = I.term(a[0], st)
            return I.alloc(st, PDict({"u": app("U", const(n[0] - 1), o), "v": Tup([app("V", const(n[0] - 1), o)])}))

        ag = Py("agent", agent)
    s.loop(done_at=steps + 1, agent=ag, plain=plain)
    I, st = s.I, s.st
    out = s.call(c, "get_outputs")
    obs = sym("obs_reset")
    rws, obss, acts, us, vs = [], [], [], [], []
    for t in range(steps):
        if tree:
            u, v = app("U", const(t), obs), app("V", const(t), obs)
            us.append(u)
            vs.append(v)
            a = next(e[1] for e in s.log if e[0] == "step" and e[1] not in acts)
        else:
            a = app("ACT", const(t), obs)
        acts.append(a)
        rws.append(app("RW", const(t), a))
        obs = app("OBS", const(t), a)
        obss.append(obs)
    if wrong:
        rws = list(reversed(rws))
    if plain:
        rws = obss = acts = [const(0)] * steps
    w = {"reward": rws}
    if ret_obs:
        w["obs"] = obss
    if ret_act:
        w["action"] = {"u": us, "v": (vs,)} if tree else acts
    if not isinstance(out, Tup) or out.names is None:
        return undecided(f"recorded outputs {out}")
    if set(out.names) != set(w):
        return violated(f"recorded fields {list(out.names)}, required {list(w)}")
    return worst([eq_struct(R, I, st, I.getattr(out, nm, st), w[nm], (), f"recorded {nm}") for nm in w])


def labelled(R, kind, wrong=False):
    """rewards are values of pandas or xarray: concatenated along their first dimension, keeping their labels"""
    s = Stage(R)
    I = s.I
    mine = lambda v: isinstance(v, T) and v.op == "app" and v.args[0] == "RW"
    I.assume["isinstance"] = [lambda v, cs, names: (any(getattr(c, "name", "").split(".")[-1] == kind for c in cs) if mine(v) else None)]
    calls = []

    def concat(lib):
        def f(I2, a, k, s2):
            k = dict(k)
            x = a[0] if a else k.pop("objs", None)
            for n, v in zip(("axis",) if lib == "pandas" else ("dim",), a[1:]):
                k[n] = v
            calls.append((lib, [I2.term(v, s2) for v in I2.iter_items(x, s2)], {n: I2.term(v, s2) for n, v in k.items()}))
            return app("CONCAT", const(len(calls) - 1))
        return f

    for lib in ("pandas", "xarray"):
        I.handlers[f"{lib}.concat"] = concat(lib)
    c = s.make("wax.gym.callbacks.record.Record")
    s.call(c, "__enter__")
    s.loop(done_at=4)
    st = s.st
    out = s.call(c, "get_outputs")
    if not isinstance(out, Tup) or out.names is None or "reward" not in out.names:
        return undecided(f"recorded outputs {out}")
    got = I.term(I.getattr(out, "reward", st), st)
    want, obs = [], sym("obs_reset")
    for t in range(3):
        a = app("ACT", const(t), obs)
        want.append(app("RW", const(t), a))
        obs = app("OBS", const(t), a)
    if wrong:
        want.reverse()
    hit = [c for i, c in enumerate(calls) if got == app("CONCAT", const(i))]
    if not hit:
        return undecided(f"recorded reward {show(got)}: not seen as concatenated values")
    lib, items, kw = hit[0]
    if len(items) != 3:
        return violated(f"{len(items)} of 3 recorded values are concatenated")
    if items != want:
        return violated("the recorded values are concatenated in another order than they were observed") if sorted(map(repr, items)) == sorted(map(repr, want)) else undecided(f"values {items}")
    bad = {n: v for n, v in kw.items() if (n, v) not in ((("axis"), const(0)), ("ignore_index", FALSE), ("sort", FALSE), ("join", const("outer")), ("copy", TRUE))}
    if lib == "pandas":
        for n, v in bad.items():
            if n == "ignore_index" and v == TRUE:
                return violated("the labels of the recorded values are dropped (concatenated with ignore_index)")
            if n == "axis" and v in (const(1), const("columns")):
                return violated("the recorded values are concatenated side by side (axis 1), not one after the other")
            if n == "join" and v == const("inner"):
                return violated("columns that some recorded values do not have are dropped (join='inner')")
            return undecided(f"pandas.concat called with {n}={show(v)}")
    return holds()


def progress(R, sized):
    s = Stage(R)
    made = []

    def tqdm(I, a, k, st):
        log = ["made", I.pyval(k["total"]) if "total" in k and I.is_const(k["total"]) else None]
        made.append(log)
        return Tup([Py("update", lambda I2, a2, k2, s2: (log.append("update" if not a2 else f"update {show(a2[0])}"), NONE)[1]), Py("close", lambda I2, a2, k2, s2: (log.append("close"), NONE)[1])], "namedtuple", ("update", "close"), NTCls("tqdm", ("update", "close")))

    for nm in ("tqdm.auto.tqdm", "tqdm.tqdm"):
        s.I.handlers[nm] = tqdm

    def length(I, a, k, st):
        if isinstance(a[0], Tup) and a[0].names == ("reset", "step", "close"):
            if sized:
                return const(3)
            raise AbsRaise("TypeError", sure=True)
        return const(len(I.seq_items(a[0], st)))

    s.I.handlers["builtins.len"] = length
    c = s.make("wax.gym.callbacks.progressbar.ProgressBar")
    r = s.call(c, "__enter__")
    s.loop(done_at=3)
    if not (isinstance(r, Ref) and r.i == c.i):
        return violated(f"entering the progress bar gives {'None' if is_none_term(I_term(s, r)) else r}, not the callback")
    if len(made) != 1:
        return violated(f"{len(made)} progress bars are shown for one loop") if made else undecided("no progress bar seen")
    want = ["made", 3 if sized else None, "update", "update", "update", "close"]
    return holds() if made[0] == want else violated(f"progress bar receives {made[0]}, required {want}")


def I_term(s, v):
    return s.I.term(v, s.st)


@prop("W72")
def callback_rule(R):
    R.total = True
    R.rule("scope", "callbacks entered (with) or registered are called by every outermost loop without explicit callbacks until they are left; explicit callbacks replace them; loops nested in a loop call none; a failing loop leaves the active callbacks as they were")
    R.rule("stop", "Stop(n) ends the loop after exactly n steps unless the environment is done before")
    R.rule("record", "Record returns reward (and observation, action) of every step before done, stacked in step order")
    R.rule("progress", "ProgressBar updates once per step and is closed at the end; entering a callback gives the callback")
    w = where_(R, CB)
    R.ob("scope", f"{CB}[with]", lambda: scope_with(R), w)
    R.ob("scope", f"{CB}[register]", lambda: scope_register(R), w)
    for e in (False, True):
        R.ob("scope", f"{GU}[explicit callbacks{' empty' if e else ''}]", lambda: scope_explicit(R, e), w)
    R.ob("scope", f"{GU}[nested loops]", lambda: scope_nested(R), w)
    R.ob("scope", f"{GU}[loop that raises]", lambda: scope_fail(R), w)
    R.ob("scope", f"{CB}[entered twice]", lambda: scope_twice(R), w)
    R.ob("scope", "wax.gym.callbacks.callbacks.add_callbacks[tuple of functions]", lambda: scope_tuple(R), w)
    for which in (("on_step",), ("on_train_start", "on_train_end"), ("on_act",), ("on_train_start",), ("on_train_end",), ("on_act", "on_train_end")):
        R.ob("scope", f"{CB}[{','.join(which)}]", lambda: partial_cb(R, which), w)
    R.control(lambda: scope_with(R, True))
    d = "wax.gym.callbacks.stop.Stop"
    for n in (1, 2, 4):
        for da in (1, 3, 6):
            R.ob("stop", f"{d}[stop={n},done after {da}]", lambda: stop_cb(R, n, da), where_(R, d))
    R.ob("stop", f"{d}[all values zero]", lambda: stop_cb(R, 3, 6, plain=True), where_(R, d))
    R.ob("stop", f"{d}[rewards and observations missing]", lambda: stop_cb(R, 3, 6, plain=NONE), where_(R, d))
    R.control(lambda: stop_cb(R, 2, 3, True))
    d = "wax.gym.callbacks.record.Record"
    for n in (1, 3):
        for ro, ra in ((None, None), (True, False), (False, True), (True, True)):
            R.ob("record", f"{d}[{n} steps,return_obs={ro},return_action={ra}]", lambda: record(R, n, ro, ra), where_(R, d))
    R.ob("record", f"{d}[structured actions]", lambda: record(R, 2, True, True, True), where_(R, d))
    R.ob("record", f"{d}[all values zero]", lambda: record(R, 3, True, True, plain=True), where_(R, d))
    for kind in ("Series", "DataFrame"):
        R.ob("record", f"{d}[rewards are pandas {kind}]", lambda: labelled(R, kind), where_(R, d))
    R.control(lambda: labelled(R, "Series", wrong=True))
    R.control(lambda: record(R, 3, None, None, wrong=True))
    d = "wax.gym.callbacks.progressbar.ProgressBar"
    for sized in (True, False):
        R.ob("progress", f"{d}[{'sized' if sized else 'unsized'} environment]", lambda: progress(R, sized), where_(R, d))


# ------------------------------------------------------------------ stateful agents and environments
HA, HE = "wax.gym.haiku_agent.HaikuAgent", "wax.gym.haiku_env.HaikuEnv"


class Pairs(Model):
    """apply returns (outputs, state); for an environment the outputs are (reward, observation)"""

    def __init__(self, env):
        super().__init__()
        self.env = env

    def build(self, I, st):
        init, apply = super().build(I, st)
        if not self.env:
            return init, apply

        def apply2(I2, a, k, s):
            o, nxt = I2.unpack(I2.call(apply, a, k, None, s), 2, s)
            return Tup([Tup([app("RWD", I2.term(o, s)), app("OBSV", I2.term(o, s))]), nxt])

        return init, Py("apply", apply2)


def agent_rule(R, resets, wrong=False):
    """resets: the steps before which reset() is called"""
    s = Stage(R)
    m = Pairs(False)
    ag = s.make(HA, m.pair(s.I, s.st, TWS))
    res, p, q = [], None, None
    inits = 0
    for t in range(4):
        if t in resets:
            s.call(ag, "reset")
            p = None
        o = sym(f"o{t}")
        out = s.I.call(ag, [o], {}, None, s.st)
        if p is None or wrong:
            p, q = app("INITP", o), app("INITS", o)
            inits += 1
        a = [p, q, o]
        res.append(eq_struct(R, s.I, s.st, out, m.outs(a), (), f"action {t + 1}"))
        q = m.nxt(a)
    if not wrong:
        if len(m.init_calls) != inits:
            res.append(violated(f"{len(m.init_calls)} initialisations, required {inits}"))
        res.append(seq_keys(m))
    return worst(res)


def seq_keys(m):
    ks = m.init_keys + m.keys
    if any(is_none_term(k) for k in ks):
        return violated("a call receives no key")
    return distinct(ks)


def env_rule(R, n, resets, wrong=False):
    """n observations in the data; resets: the interaction starts anew before these steps"""
    s = Stage(R)
    m = Pairs(True)
    gen = s.I.alloc(s.st, PList([Tup([sym(f"x{i}"), sym(f"info{i}")]) for i in range(n)]))
    env = s.make(HE, gen, m.pair(s.I, s.st, TWS))
    obs = s.call(env, "reset")
    res = [eq_struct(R, s.I, s.st, obs, sym("x0"), (), "first observation")]
    i, p, q = 1, None, None
    last = sym("info0")
    for t in range(n + 1):
        if t in resets and i < n:
            obs = s.call(env, "reset")
            res.append(eq_struct(R, s.I, s.st, obs, sym(f"x{i}"), (), "observation after reset"))
            last = sym(f"info{i}")
            i, p = i + 1, None
        act = sym(f"a{t}")
        out = s.call(env, "step", act)
        o, rw, done, info = s.I.unpack(out, 4, s.st)
        if i >= n:
            res.append(eq_struct(R, s.I, s.st, done, TRUE, (), f"done of step {t + 1} (no data left)"))
            res.append(eq_struct(R, s.I, s.st, info, last, (), f"info of step {t + 1} (no data left)"))
            res.append(eq_struct(R, s.I, s.st, rw, const(0), (), f"reward of step {t + 1} (no data left)"))
            if not is_none_term(s.I.term(o, s.st)):
                res.append(violated(f"observation of step {t + 1}, where no data is left: {show(s.I.term(o, s.st))}, required None"))
            break
        x = sym(f"x{i}")
        if p is None:
            p, q = app("INITP", act, x), app("INITS", act, x)
        a = [p, q, act, x]
        y = m.outs(a)
        if wrong:
            x = sym("x0")
        last = sym(f"info{i}")
        res.append(eq_struct(R, s.I, s.st, rw, app("RWD", y), (), f"reward of step {t + 1}"))
        res.append(eq_struct(R, s.I, s.st, o, app("OBSV", y) if not wrong else app("OBSV", x), (), f"observation of step {t + 1}"))
        res.append(eq_struct(R, s.I, s.st, done, FALSE, (), f"done of step {t + 1}"))
        res.append(eq_struct(R, s.I, s.st, info, last, (), f"info of step {t + 1}"))
        q = m.nxt(a)
        i += 1
    res.append(seq_keys(m))
    return worst(res)


def shared(R, env):
    """two agents (environments) of one program are independent: the second, run after or between the first, gets the keys it gets alone"""

    def one(first):
        s = Stage(R)
        keys, outs = [], []
        if env:
            make = lambda m: s.make(HE, s.I.alloc(s.st, PList([Tup([sym(f"x{i}"), sym(f"info{i}")]) for i in range(4)])), m.pair(s.I, s.st, TWS))
            step = lambda e: s.call(e, "step", sym("a"))
        else:
            make = lambda m: s.make(HA, m.pair(s.I, s.st, TWS))
            step = lambda e: s.I.call(e, [sym("o")], {}, None, s.st)
        n = Pairs(env)
        if first:
            other = make(n)
            if env:
                s.call(other, "reset")
            step(other)
        m = Pairs(env)
        e = make(m)
        if env:
            s.call(e, "reset")
        for _ in range(2):
            outs.append(step(e))
            if first:
                step(other)
        return m.init_keys + m.keys

    a, b = one(False), one(True)
    if any(is_none_term(k) for k in a + b):
        return violated("a call receives no key")
    if len(a) != len(b):
        return violated(f"{len(b)} keys instead of {len(a)} because of another object of the class")
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return violated(f"key {i + 1} is {show(y)} when another object of the class is in use, {show(x)} alone")
    return holds()


def env_len(R, n):
    s = Stage(R)
    gen = s.I.alloc(s.st, PList([Tup([sym(f"x{i}"), s.I.alloc(s.st, PDict({"maxlen": const(n)}))]) for i in range(n)]))
    env = s.make(HE, gen, Pairs(True).pair(s.I, s.st, TWS))
    s.call(env, "reset")
    return eq_struct(R, s.I, s.st, s.call(env, "__len__"), const(n), (), "len of the environment")


def agent_unroll(R, given, cb):
    s = Stage(R)
    m = Pairs(False)
    ag = s.make(HA, m.pair(s.I, s.st, TWS))
    w = World(s.I, s.st, 3)
    w.trace = s.log
    kw = {"obs": sym("obs_given")} if given else {}
    if cb:
        kw["callbacks"] = s.I.alloc(s.st, PList([s.I.getattr(s.callback("A"), "_callback", s.st)]))
    s.call(ag, "unroll", w.env, **kw)
    obs = sym("obs_given") if given else sym("obs_reset")
    p, q = app("INITP", obs), app("INITS", obs)
    want = [] if given else [("reset",)]
    for t in range(3):
        a = [p, q, obs]
        act = m.outs(a)
        q = m.nxt(a)
        want.append(("step", act))
        obs = app("OBS", const(t), act)
    want.append(("close",))
    got = [e for e in s.log if "." not in e[0]]
    res = [same_trace(got, want)]
    n = sum(1 for e in s.log if "." in e[0])
    if n != (8 if cb else 0):
        res.append(violated(f"{n} callback calls, required {8 if cb else 0}"))
    return worst(res)


@prop("W73")
def wrap_rule(R):
    R.total = True
    R.rule("agent", "HaikuAgent: the first observation (also after reset) initialises params and state; every call applies them, returns the action and keeps the new state; every init and apply gets its own key")
    R.rule("env", "HaikuEnv: reset returns the next observation of the data; step applies the module to (action, next observation), returns its observation and reward with the info of that observation and done=False; when the data is exhausted done=True")
    R.rule("unroll", "Agent.unroll runs the agent against the environment with the given obs and callbacks")
    w = where_(R, HA)
    for rs in ((), (2,), (1, 3)):
        R.ob("agent", f"{HA}[reset before steps {list(rs)}]", lambda: agent_rule(R, rs), w)
    R.control(lambda: agent_rule(R, (), True))
    w = where_(R, HE)
    for n in (1, 2, 4):
        R.ob("env", f"{HE}[{n} observations]", lambda: env_rule(R, n, ()), w)
    R.ob("env", f"{HE}[5 observations, reset before step 3]", lambda: env_rule(R, 5, (2,)), w)
    R.control(lambda: env_rule(R, 4, (), True))
    R.rule("shared", "an agent (environment) gives the same keys to its module whether or not other agents (environments) are in use")
    R.ob("shared", f"{HA}[two agents]", lambda: shared(R, False), where_(R, HA))
    R.ob("shared", f"{HE}[two environments]", lambda: shared(R, True), where_(R, HE))
    R.ob("env", f"{HE}[length]", lambda: env_len(R, 4), w)
    d = "wax.gym.agent.Agent.unroll"
    for g in (False, True):
        for cb in (False, True):
            R.ob("unroll", f"{d}[obs {'given' if g else 'from reset'},{'one' if cb else 'no'} callback]", lambda: agent_unroll(R, g, cb), where_(R, "wax.gym.agent.Agent"))
