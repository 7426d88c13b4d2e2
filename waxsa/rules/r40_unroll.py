"""Unrolling a stateful function over a sequence: state threading, order, explicit params/state, keys."""
from . import prop
from ..interp import Bound, Func, NTCls, PDict, PInst, PList
from ..judge import *
from ..terms import *
from .r10_windows import where_

TWS = NTCls("TransformedWithState", ("init", "apply"))
KWX = "c"


class Model:
    """a pair of pure functions (init, apply) with uninterpreted results; records the keys it is given"""

    TREE = False    # default: one output, or nested outputs of three leaves

    def __init__(self, tree=None):
        self.keys, self.init_keys, self.calls, self.init_calls, self.tree = [], [], [], [], Model.TREE if tree is None else tree

    def outs(self, args):
        y = mk("app", "OUT", *args)
        if self.tree:
            return {"a": mk("app", "OUTA", *args), "b": (mk("app", "OUTB", *args), mk("app", "OUTC", *args))}
        return y

    @staticmethod
    def nxt(args):
        return mk("app", "STATE", *args)

    def build(self, I, st):
        def flat(a, k, s):
            r = [I.term(x, s) for x in a]
            r += [mk("kw", n, I.term(v, s)) for n, v in sorted(k.items())]
            return r

        def init(I2, a, k, s):
            self.init_keys.append(I.term(a[0], s))
            t = flat(a[1:], k, s)
            self.init_calls.append(tuple(t))
            return Tup([mk("app", "INITP", *t), mk("app", "INITS", *t)])

        def apply(I2, a, k, s):
            self.keys.append(I.term(a[2], s))
            t = flat([a[0], a[1], *a[3:]], k, s)
            self.calls.append(tuple(t))
            o = self.outs(t)
            if self.tree:
                o = I.alloc(s, PDict({"a": o["a"], "b": Tup(list(o["b"]))}))
            return Tup([o, self.nxt(t)])

        return Py("init", init), Py("apply", apply)

    def pair(self, I, st, cls=TWS):
        a, b = self.build(I, st)
        return Tup([a, b], "namedtuple", ("init", "apply"), cls)


def nested(f):
    """f with nested inputs and models whose outputs are nested"""
    Model.TREE = True
    try:
        return f()
    finally:
        Model.TREE = False


def is_none_term(t):
    return t is NONE or (t.op == "obj" and t.args[0] is None)


def seqs(n):
    x = Arr([sym(f"x{i}") for i in range(n)])
    if Model.TREE:
        x = Tup([x, Tup([Arr([sym(f"v{i}") for i in range(n)])])])
    return [x, Arr([sym(f"c{i}") for i in range(n)])]


def at(t):
    """the element of time t"""
    return mk("tuple", sym(f"x{t}"), mk("tuple", sym(f"v{t}"))) if Model.TREE else sym(f"x{t}")


def step_args(p, s, t, kw):
    return [p, s, at(t)] + ([mk("kw", KWX, sym(f"c{t}"))] if kw else [])


def spec_unroll(m, p, s, times, kw):
    outs = []
    for t in times:
        a = step_args(p, s, t, kw)
        outs.append(m.outs(a))
        s = m.nxt(a)
    return transpose_outs(m, outs), s


def transpose_outs(m, outs):
    if m.tree:
        return {"a": [o["a"] for o in outs], "b": ([o["b"][0] for o in outs], [o["b"][1] for o in outs])}
    return outs


def spec_init(kw):
    t = [at(0)] + ([mk("kw", KWX, sym("c0"))] if kw else [])
    return mk("app", "INITP", *t), mk("app", "INITS", *t)


def key_rule(keys, rng, steps):
    """every step gets a key of its own, derived from the given key, and no key is both used and split"""
    if len(keys) != steps:
        return undecided(f"{len(keys)} apply calls recorded, {steps} steps")
    if rng is None:
        bad = [k for k in keys if not is_none_term(k)]
        return violated(f"a key {show(bad[0])} appears although none was given") if bad else holds()
    if any(is_none_term(k) for k in keys):
        return violated("a step receives no key although one was given")
    for i, a in enumerate(keys):
        for j in range(i):
            if keys[j] is a:
                return violated(f"steps {j + 1} and {i + 1} receive the same key {show(a)}")
        if rng not in set(leaves(a)):
            if all(s.op in ("sym", "split", "num") for s in subterms(a)):
                return violated(f"step {i + 1} receives key {show(a)}, not derived from the given key")
            return undecided(f"origin of key {show(a)}")
    parents = {s.args[0] for k in keys for s in subterms(k) if s.op == "split"}
    both = [k for k in keys if k in parents]
    if both:
        return violated(f"key {show(both[0])} is used by a step and split again")
    return holds()


def get_apply(I, st, v, name="apply"):
    return I.getattr(v, name, st)


RNG = sym("rng")


def check_transform(R, dotted, cfg, n, kw, tree, rng, cls=None, mk_fun=None):
    """transformer(fun, **cfg) -> object with init/apply"""
    m = Model(tree)
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, cls(I) if cls else TWS)
    s = run_function(R, dotted, [pair], dict(cfg), I=I, st=st)
    x, c = seqs(n)
    kws = {KWX: c} if kw else {}
    ap = get_apply(I, s.st, s.out)
    out = I.call(ap, [sym("p"), sym("s"), rng if rng is not None else NONE, x], kws, None, s.st)
    times = range(1, n) if cfg.get("skip_first") is TRUE else range(n)
    want, fin = spec_unroll(m, sym("p"), sym("s"), times, kw)
    r = eq_struct(R, I, s.st, out, (want, fin), (), "(outputs, final state)")
    return r, key_rule(m.keys, rng, len(times)), m, I, s


def check_init(R, dotted, cfg, n, kw, cls=None):
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, cls(I) if cls else TWS)
    s = run_function(R, dotted, [pair], dict(cfg), I=I, st=st)
    x, c = seqs(n)
    out = I.call(get_apply(I, s.st, s.out, "init"), [RNG, x], {KWX: c} if kw else {}, None, s.st)
    return eq_struct(R, I, s.st, out, spec_init(kw), (), "(params, state)")


def flax_cls(I):
    mod, node = I.p.need("wax.flax.core.transform.FlaxTransformed")
    return I.global_value(mod, node.name)


TRANSFORMS = (("wax.unroll.unroll_transform_with_state", None), ("wax.flax.core.unroll.flax_unroll_transform", flax_cls))
UNROLLS = (("wax.unroll.unroll", None), ("wax.flax.core.unroll.flax_unroll", flax_cls))


def check_unroll(R, dotted, cfg, n, given, cls=None, rng=None, empty=False):
    """unroll(fun, params=, state=, ...)(*xs)"""
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, cls(I) if cls else TWS)
    kwc = dict(cfg)
    ip, is_ = spec_init(True)
    P, S0 = ip, is_
    if "params" in given:
        P = kwc["params"] = I.alloc(st, PDict({})) if empty else sym("p")
    if "state" in given:
        S0 = kwc["state"] = I.alloc(st, PDict({})) if empty else sym("s")
    if rng is not None:
        kwc["rng"] = rng
    s = run_function(R, dotted, [pair], kwc, I=I, st=st)
    x, c = seqs(n)
    out = I.call(s.out, [x], {KWX: c}, None, s.st)
    times = range(1, n) if cfg.get("skip_first") is TRUE else range(n)
    want, fin = spec_unroll(m, I.term(P, s.st), I.term(S0, s.st), times, True)
    w = (want, fin) if cfg.get("return_final_state") is TRUE else want
    return eq_struct(R, I, s.st, out, w, (), "result"), m


@prop("W40")
def unrolls(R):
    R.total = True
    R.rule("thread", "output t = apply(params, state t, input t) with state t+1 = the state returned at t, in order; the last state is returned")
    R.rule("init", "init sees exactly the first element of every argument sequence")
    R.rule("given", "explicitly given params/state are used (also empty ones), missing ones come from init on the first element")
    for d, cls in TRANSFORMS:
        w = where_(R, d)
        for n, dyn, skip, kw, tree in ((1, TRUE, FALSE, False, False), (3, TRUE, FALSE, True, False), (4, TRUE, TRUE, True, False), (3, FALSE, FALSE, True, False), (4, FALSE, TRUE, True, False), (3, FALSE, FALSE, True, True), (3, TRUE, FALSE, True, True)):
            cfg = {"dynamic": dyn, "skip_first": skip}
            R.ob("thread", f"{d}[n={n},dynamic={dyn is TRUE},skip_first={skip is TRUE},tree={tree}]", lambda: check_transform(R, d, cfg, n, kw, tree, None, cls)[0], w)
        R.ob("thread", f"{d}[defaults]", lambda: check_transform(R, d, {}, 3, True, False, None, cls)[0], w)
        for dyn in (TRUE, FALSE):
            for skip in (TRUE, FALSE):
                R.ob("thread", f"{d}[nested inputs and outputs,dynamic={dyn is TRUE},skip_first={skip is TRUE}]", lambda: nested(lambda: check_transform(R, d, {"dynamic": dyn, "skip_first": skip}, 3, True, True, None, cls)[0]), w)
        R.ob("init", d, lambda: check_init(R, d, {}, 3, True, cls), w)
        R.ob("init", f"{d}[skip_first]", lambda: check_init(R, d, {"skip_first": TRUE}, 3, True, cls), w)
        R.control(lambda: check_transform(R, d, {"skip_first": TRUE}, 3, True, False, None, cls)[0] if False else wrong_order(R, d, cls))
    for d, cls in UNROLLS:
        w = where_(R, d)
        for given in ((), ("params",), ("state",), ("params", "state")):
            for ret in (TRUE, FALSE):
                R.ob("given", f"{d}[given={'+'.join(given) or 'none'},final={ret is TRUE}]", lambda: check_unroll(R, d, {"return_final_state": ret}, 3, given, cls)[0], w)
            if given:
                R.ob("given", f"{d}[given={'+'.join(given)},empty]", lambda: check_unroll(R, d, {"return_final_state": TRUE}, 3, given, cls, None, True)[0], w)
        for dyn in (TRUE, FALSE):
            R.ob("thread", f"{d}[skip_first,dynamic={dyn is TRUE}]", lambda: check_unroll(R, d, {"return_final_state": TRUE, "skip_first": TRUE, "dynamic": dyn}, 4, (), cls)[0], w)
        R.ob("thread", f"{d}[defaults]", lambda: check_unroll(R, d, {}, 3, (), cls)[0], w)


def wrong_order(R, d, cls):
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, cls(I) if cls else TWS)
    s = run_function(R, d, [pair], {}, I=I, st=st)
    x, c = seqs(3)
    out = I.call(get_apply(I, s.st, s.out), [sym("p"), sym("s"), NONE, x], {KWX: c}, None, s.st)
    want, fin = spec_unroll(m, sym("p"), sym("s"), [0, 2, 1], True)
    return eq_struct(R, I, s.st, out, (want, fin), (), "result")


@prop("W41")
def keys(R):
    R.total = True
    R.rule("fresh-key", "every step receives a key of its own derived from the given key; no key is both used by a step and split again; no key where none is given")
    for d, cls in TRANSFORMS:
        w = where_(R, d)
        for dyn in (TRUE, FALSE):
            for skip in (FALSE, TRUE):
                for rng in (None, RNG):
                    R.ob("fresh-key", f"{d}[dynamic={dyn is TRUE},skip_first={skip is TRUE},rng={'given' if rng is not None else 'none'}]", lambda: check_transform(R, d, {"dynamic": dyn, "skip_first": skip}, 4, True, False, rng, cls)[1], w)
        R.control(lambda: key_rule([mk("split", RNG, 0), mk("split", mk("split", RNG, 0), 1)], RNG, 2))
    for d, cls in UNROLLS:
        def chk(d=d, cls=cls):
            r, m = check_unroll(R, d, {}, 3, (), cls, RNG)
            if not m.init_keys or any(k is not RNG for k in m.init_keys):
                return violated(f"init receives {[show(k) for k in m.init_keys]}, not the given key")
            return key_rule(m.keys, RNG, 3)

        R.ob("fresh-key", f"{d}[rng=given]", chk, where_(R, d))
    more_keys(R)


# ------------------------------------------------------------------ the other sequence drivers
def fold_result(R, I, st, m, out, p, s, times, kw, final=True, label="(outputs, final state)"):
    want, fin = spec_unroll(m, p, s, times, kw)
    return eq_struct(R, I, st, out, (want, fin) if final else want, (), label)


def legacy(R, d, n, given, skip, rng, kw=True, extra=None):
    """f(fun, params, state, rng, skip_first, *args, **kwargs)"""
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, TWS)
    x, c = seqs(n)
    kws = {KWX: c} if kw else {}
    kws.update(extra or {})
    P, S0 = spec_init(kw)
    a = []
    for nm in ("params", "state"):
        a.append(sym(nm[0]) if nm in given else NONE)
    s = run_function(R, d, [pair, a[0], a[1], rng if rng is not None else NONE, skip, x], kws, I=I, st=st)
    r = fold_result(R, I, s.st, m, s.out, sym("p") if "params" in given else P, sym("s") if "state" in given else S0, range(1, n) if skip is TRUE else range(n), kw)
    return r, m


def gym(R, n, skip, given):
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, TWS)
    gen = I.alloc(st, PList([Tup([Tup([sym(f"x{i}"), Tup([sym(f"v{i}")])]) if Model.TREE else sym(f"x{i}"), sym(f"info{i}")]) for i in range(n)]))
    seq = I.alloc(st, PList([sym(f"k{i}") for i in range(2 * n + 2)]))
    P, S0 = spec_init(False)
    a = [sym(nm[0]) if nm in given else NONE for nm in ("params", "state")]
    s = run_function(R, "wax.unroll.gym_static_unroll", [pair, a[0], a[1], seq, skip, gen], {}, I=I, st=st)
    r = fold_result(R, I, s.st, m, s.out, sym("p") if "params" in given else P, sym("s") if "state" in given else S0, range(1, n) if skip is TRUE else range(n), False)
    return r, m


def batch(R, d, n, skip, key):
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, TWS)
    s = run_function(R, d, [pair], {"skip_first": skip}, I=I, st=st)
    x, _ = seqs(n)
    pr = I.call(get_apply(I, s.st, s.out, "init"), [RNG, x], {}, None, s.st)
    params, state = I.unpack(pr, 2, s.st)
    P, S0 = spec_init(False)
    res = [eq_struct(R, I, s.st, I.getattr(state, "fun_params", s.st), P, (), "init fun_params"), eq_struct(R, I, s.st, I.getattr(state, "fun_state", s.st), S0, (), "init fun_state")]
    out = I.call(get_apply(I, s.st, s.out), [params, state, key if key is not None else NONE, x], {}, None, s.st)
    ys, fin = I.unpack(out, 2, s.st)
    times = range(1, n) if skip is TRUE else range(n)
    want, wf = spec_unroll(m, P, S0, times, False)
    res.append(eq_struct(R, I, s.st, ys, want, (), "outputs"))
    res.append(eq_struct(R, I, s.st, I.getattr(fin, "fun_state", s.st), wf, (), "final fun_state"))
    res.append(eq_struct(R, I, s.st, I.getattr(fin, "fun_params", s.st), P, (), "final fun_params"))
    # a second batch continues from the state of the first
    out2 = I.call(get_apply(I, s.st, s.out), [params, fin, sym("rng3") if key is not None else NONE, x], {}, None, s.st)
    ys2, fin2 = I.unpack(out2, 2, s.st)
    want2, wf2 = spec_unroll(m, P, wf, times, False)
    res.append(eq_struct(R, I, s.st, ys2, want2, (), "outputs of the next batch"))
    return worst(res), m, len(times)


FT = "wax.flax.core.transform.flax_transform_with_state"


def streaming(R, n, rng, named=False):
    """StreamingTransform.scan with the transformed function uninterpreted"""
    m = Model()
    I = Interp(R.p)
    st = S()
    I.handlers[FT] = lambda I2, a, k, s: m.pair(I2, s, flax_cls(I2))
    s = run_function(R, "wax.flax.core.streaming_transforms.streaming_transform_with_state", [sym("fn", fixed=1)], {}, I=I, st=st)
    x, c = seqs(n)
    # further named arguments are the same at every step
    out = I.call(I.getattr(s.out, "scan", s.st), [sym("p"), sym("s"), rng if rng is not None else NONE, x], {KWX: sym("cc")} if named else {}, None, s.st)
    if not named:
        return fold_result(R, I, s.st, m, out, sym("p"), sym("s"), range(n), False), m
    outs, cur = [], sym("s")
    for t in range(n):
        a = [sym("p"), cur, at(t), mk("kw", KWX, sym("cc"))]
        outs.append(m.outs(a))
        cur = m.nxt(a)
    return eq_struct(R, I, s.st, out, (transpose_outs(m, outs), cur), (), "(outputs, final state)"), m


def streaming_pair(R, rng, mangle=False):
    """init and apply of a StreamingTransform are those of the transformed function, with the given key"""
    m = Model()
    I = Interp(R.p)
    st = S()
    I.handlers[FT] = lambda I2, a, k, s: m.pair(I2, s, flax_cls(I2))
    s = run_function(R, "wax.flax.core.streaming_transforms.streaming_transform_with_state", [sym("fn", fixed=1)], {}, I=I, st=st)
    x, c = sym("x"), sym("c")
    o = I.call(I.getattr(s.out, "init", s.st), [RNG, x], {KWX: c}, None, s.st)
    t = [x, mk("kw", KWX, c)]
    r = [eq_struct(R, I, s.st, o, (mk("app", "INITP", *t), mk("app", "INITS", *t)), (), "init")]
    o = I.call(I.getattr(s.out, "apply", s.st), [sym("p"), sym("s"), rng if rng is not None else NONE, x], {KWX: c}, None, s.st)
    a = [sym("p"), sym("s"), x, mk("kw", KWX, c)]
    if mangle:
        a = a[:3]
    r.append(eq_struct(R, I, s.st, o, (mk("app", "OUT", *a), mk("app", "STATE", *a)), (), "apply"))
    if any(k is not RNG for k in m.init_keys):
        r.append(violated(f"init uses the key {show(m.init_keys[0])}, not the given one"))
    if any((k is not rng) if rng is not None else not is_none_term(k) for k in m.keys):
        r.append(violated(f"apply uses the key {show(m.keys[0])}, not the given one"))
    return worst(r)


def sscan(R, n, rng, given, reset, cfg=None, mangle=False):
    m = Model()
    I = Interp(R.p)
    st = S()
    I.handlers[FT] = lambda I2, a, k, s: m.pair(I2, s, flax_cls(I2))
    conf = dict(cfg or {})
    if reset:
        conf["reset_on"] = Py("reset_on", lambda I2, a, k, s: mk("truth", mk("app", "RESET", I2.term(a[0], s))))
    s = run_function(R, "wax.flax.core.streaming_transforms.streaming_scan", [sym("fn", fixed=1)], conf, I=I, st=st)
    x, _ = seqs(n)
    kws = {}
    P, S0 = spec_init(False)
    if "params" in given:
        P = kws["params"] = sym("p")
    if "state" in given:
        S0 = kws["state"] = sym("s")
    if rng is not None:
        kws["rng"] = rng
    out = I.call(I.getattr(s.out, "scan_apply", s.st), [x], kws, None, s.st)
    outs, cur = [], S0
    for t in range(n):
        a = [P, cur, at(t)]
        outs.append(m.outs(a))
        cur = m.nxt(a)
        if reset:
            cur = ite(mk("truth", mk("app", "RESET", at(t + (1 if mangle else 0)))), S0, cur)
    r = eq_struct(R, I, s.st, out, (transpose_outs(m, outs), cur), (), "(outputs, final state)")
    return r, m


def scan_static(R, n, none=False):
    """static_scan(f, init, xs | length) with an uninterpreted step"""
    I = Interp(R.p)
    st = S()

    def step(I2, a, k, s):
        t = [I2.term(x, s) for x in a]
        return Tup([mk("app", "CARRY", *t), Tup([mk("app", "Y", *t), mk("app", "Z", *t)])])

    xs = NONE if none else Tup([seqs(n)[0], seqs(n)[1]])
    s = run_function(R, "wax.unroll.static_scan", [Py("f", step), sym("init"), xs], {"length": const(n)} if none else {}, I=I, st=st)
    c, ys, zs = sym("init"), [], []
    for t in range(n):
        x = NONE if none else mk("tuple", sym(f"x{t}"), sym(f"c{t}"))
        ys.append(mk("app", "Y", c, x))
        zs.append(mk("app", "Z", c, x))
        c = mk("app", "CARRY", c, x)
    return eq_struct(R, I, s.st, s.out, (c, (ys, zs)), (), "(carry, outputs)")


def data(R, n, pbar=False):
    I = Interp(R.p)
    I.scalars = I.scalar_items = True
    I.handlers["tqdm.auto.tqdm"] = lambda I2, a, k, s: a[0]
    st = S()
    v = [[[sym(f"v{i}_{j}_{k}") for k in range(3)] for j in range(2)] for i in range(n)]
    obs = [Tup([sym(f"x{i}"), I.alloc(st, PDict({"u": Arr([sym(f"u{i}"), sym(f"w{i}")]), "v": Arr([Arr(y) for y in v[i]])}))]) for i in range(n)]
    gen = I.alloc(st, PList([Tup([o, sym(f"info{i}")]) for i, o in enumerate(obs)]))
    s = run_function(R, "wax.unroll.data_unroll", [gen], {"pbar": TRUE if pbar else FALSE}, I=I, st=st)
    return eq_struct(R, I, s.st, s.out, ([sym(f"x{i}") for i in range(n)], {"u": [[sym(f"u{i}"), sym(f"w{i}")] for i in range(n)], "v": v}))


def lifted(R, n, skip, kw, cfg=None, keyless=None):
    """unroll_lift_with_state inside a Haiku module: init/apply of the inner function uninterpreted"""
    m = Model()
    I = Interp(R.p)
    if keyless is not None:
        I.has_rng, I.running_init = False, TRUE if keyless == "init" else FALSE
    st = S()
    ups = []
    I.handlers["haiku.transform_with_state"] = lambda I2, a, k, s: m.pair(I2, s, TWS)

    def lift(I2, a, k, s):
        init = a[0]

        def upd(I3, a3, k3, s3):
            ups.append(I3.term(a3[0], s3))
            return NONE

        o = Tup([Py("update", upd)], "namedtuple", ("update",), NTCls("Updater", ("update",)))
        return Tup([Py("lifted", lambda I3, a3, k3, s3: I3.call(init, a3, k3, None, s3)), o])

    for nm in ("haiku.experimental.lift_with_state", "haiku.lift_with_state"):
        I.handlers[nm] = lift
    s = run_function(R, "wax.stateful.unroll_lift_with_state", [sym("fn", fixed=1)], {"skip_first": skip, **(cfg or {})}, I=I, st=st)
    x, c = seqs(n)
    out = I.call(s.out, [x], {KWX: c} if kw else {}, None, s.st)
    P, S0 = spec_init(kw)
    want, fin = spec_unroll(m, P, S0, range(1, n) if skip is TRUE else range(n), kw)
    r = [eq_struct(R, I, s.st, out, want, (), "outputs")]
    if len(ups) != 1:
        r.append(violated(f"the surrounding state is updated {len(ups)} times") if not any(isinstance(u, Splat) for u in ups) and ups == [] else undecided(f"{len(ups)} state updates"))
    else:
        r.append(eq_struct(R, I, s.st, ups[0], fin, (), "state handed to the surrounding module"))
    return worst(r), m


@prop("W42")
def drivers(R):
    R.total = True
    R.rule("driver", "every sequence driver computes the same fold of the model's apply over time: outputs in order, state threaded, last state returned")
    R.rule("collect", "collecting a stream of observations stacks every leaf in time order, first to last")
    R.rule("first-step", "init sees the first element; given params/state are kept")
    for d in ("wax.unroll.dynamic_unroll", "wax.unroll.static_unroll", "wax.unroll.dynamic_unroll_fori_loop"):
        w = where_(R, d)
        for given in ((), ("params",), ("state",), ("params", "state")):
            for skip in (FALSE, TRUE):
                R.ob("driver", f"{d}[given={'+'.join(given) or 'none'},skip_first={skip is TRUE}]", lambda: legacy(R, d, 3, given, skip, None)[0], w)
        for skip in (FALSE, TRUE):
            R.ob("driver", f"{d}[nested inputs and outputs,skip_first={skip is TRUE}]", lambda: nested(lambda: legacy(R, d, 3, (), skip, None)[0]), w)
        R.control(lambda: legacy_wrong(R, d))
    w = where_(R, "wax.unroll.gym_static_unroll")
    for skip in (FALSE, TRUE):
        for given in ((), ("params", "state")):
            R.ob("driver", f"wax.unroll.gym_static_unroll[skip_first={skip is TRUE},given={'+'.join(given) or 'none'}]", lambda: gym(R, 4, skip, given)[0], w)
            R.ob("driver", f"wax.unroll.gym_static_unroll[nested inputs and outputs,skip_first={skip is TRUE},given={'+'.join(given) or 'none'}]", lambda: nested(lambda: gym(R, 4, skip, given)[0]), w)
    for d in ("wax.transform.transform_batch_with_state", "wax.transform.transform_batch_with_state_static"):
        for skip in (FALSE, TRUE):
            for key in (None, RNG):
                R.ob("driver", f"{d}[skip_first={skip is TRUE},key={'given' if key is not None else 'none'}]", lambda: batch(R, d, 3, skip, key)[0], where_(R, d))
            R.ob("driver", f"{d}[nested inputs and outputs,skip_first={skip is TRUE}]", lambda: nested(lambda: batch(R, d, 3, skip, None)[0]), where_(R, d))
    d = "wax.flax.core.streaming_transforms.StreamingTransform.scan"
    for n in (1, 3):
        R.ob("driver", f"{d}[n={n}]", lambda: streaming(R, n, None)[0], where_(R, d))
        R.ob("driver", f"{d}[nested inputs and outputs,n={n}]", lambda: nested(lambda: streaming(R, n, None)[0]), where_(R, d))
        R.ob("driver", f"{d}[n={n},an argument by name]", lambda: streaming(R, n, None, True)[0], where_(R, d))
    for n, none in ((1, False), (3, False), (3, True)):
        R.ob("driver", f"wax.unroll.static_scan[n={n},{'length only' if none else 'xs'}]", lambda: scan_static(R, n, none), where_(R, "wax.unroll.static_scan"))
    for n in (1, 3):
        for pbar in (False, True):
            R.ob("collect", f"wax.unroll.data_unroll[n={n},pbar={pbar}]", lambda: data(R, n, pbar), where_(R, "wax.unroll.data_unroll"))
    d = "wax.stateful.unroll_lift_with_state"
    R.ob("driver", f"{d}[applied without a random key]", lambda: lifted(R, 3, FALSE, False, None, "apply")[0], where_(R, d))
    R.ob("driver", f"{d}[initialised without a random key,init_rng=False]", lambda: lifted(R, 3, FALSE, False, {"init_rng": FALSE}, "init")[0], where_(R, d))
    for skip in (FALSE, TRUE):
        for kw in (FALSE, TRUE):
            R.ob("driver", f"{d}[skip_first={skip is TRUE},kwargs={kw is TRUE}]", lambda: lifted(R, 3, skip, kw is TRUE)[0], where_(R, d))
        R.ob("driver", f"{d}[nested inputs and outputs,skip_first={skip is TRUE}]", lambda: nested(lambda: lifted(R, 3, skip, False)[0]), where_(R, d))


def legacy_wrong(R, d):
    r, m = legacy(R, d, 3, ("params",), FALSE, None)
    m2 = Model()
    I = Interp(R.p)
    st = S()
    x, c = seqs(3)
    s = run_function(R, d, [m2.pair(I, st, TWS), sym("p"), NONE, NONE, FALSE, x], {KWX: c}, I=I, st=st)
    return fold_result(R, I, s.st, m2, s.out, spec_init(True)[0], spec_init(True)[1], range(3), True)


@prop("W43")
def resets(R):
    R.total = True
    R.rule("reset", "streaming_scan: output t from the current state; after an element with the reset condition the state is the initial one, otherwise the successor")
    R.rule("given", "given params/state are used, missing ones come from init on the first element")
    d = "wax.flax.core.streaming_transforms.streaming_scan"
    w = where_(R, d)
    for reset in (False, True):
        for given in ((), ("params",), ("state",), ("params", "state")):
            R.ob("reset" if reset else "given", f"{d}[reset={reset},given={'+'.join(given) or 'none'}]", lambda: sscan(R, 3, None, given, reset)[0], w)
        R.ob("reset" if reset else "given", f"{d}[reset={reset},nested inputs and outputs]", lambda: nested(lambda: sscan(R, 3, None, (), reset)[0]), w)
    R.ob("reset", f"{d}[given=none,rng=given]", lambda: sscan(R, 3, RNG, (), True)[0], w)
    R.control(lambda: sscan(R, 3, None, ("params", "state"), True, None, True)[0])


# ------------------------------------------------------------------ keys of the other drivers
def gym_keys(R, n, skip):
    r, m = gym(R, n, skip, ())
    ks = m.init_keys + m.keys
    steps = n - 1 if skip is TRUE else n
    if len(m.keys) != steps:
        return undecided(f"{len(m.keys)} apply calls recorded, {steps} steps")
    for i, a in enumerate(ks):
        if is_none_term(a) or not leaves(a):
            return violated(f"call {i + 1} receives key {show(a)}")
        if any(b is a for b in ks[:i]):
            return violated(f"key {show(a)} of the sequence is used by two calls")
    return holds()


def more_keys(R):
    for d in ("wax.unroll.dynamic_unroll", "wax.unroll.static_unroll", "wax.unroll.dynamic_unroll_fori_loop"):
        for rng in (None, RNG):
            def chk(d=d, rng=rng):
                r, m = legacy(R, d, 4, ("params", "state"), FALSE, rng)
                ks = m.keys[-4:]   # a template call before the loop may precede the steps
                return key_rule(ks, rng, 4)

            R.ob("fresh-key", f"{d}[rng={'given' if rng is not None else 'none'}]", chk, where_(R, d))

            def start(d=d, rng=rng):
                r, m = legacy(R, d, 3, (), FALSE, rng)
                bad = [k for k in m.init_keys if not any(u is RNG for u in subterms(k))]
                return violated(f"init receives {show(bad[0])}, not a key derived from the given one") if bad else holds()

            if rng is not None:
                R.ob("fresh-key", f"{d}[rng=given,initialisation]", start, where_(R, d))
    for skip in (FALSE, TRUE):
        R.ob("fresh-key", f"wax.unroll.gym_static_unroll[skip_first={skip is TRUE}]", lambda: gym_keys(R, 4, skip), where_(R, "wax.unroll.gym_static_unroll"))
    for d in ("wax.transform.transform_batch_with_state", "wax.transform.transform_batch_with_state_static"):
        def chk(d=d):
            r, m, n = batch(R, d, 3, FALSE, sym("rng2"))
            return worst([key_rule(m.keys[:n], sym("rng2"), n), distinct(m.keys)])

        R.ob("fresh-key", f"{d}[key=given, two batches]", chk, where_(R, d))
    d = "wax.flax.core.streaming_transforms.StreamingTransform.scan"
    for rng in (None, RNG):
        R.ob("fresh-key", f"{d}[rng={'given' if rng is not None else 'none'}]", lambda: key_rule(streaming(R, 4, rng)[1].keys, rng, 4), where_(R, d))
    d = "wax.flax.core.streaming_transforms.streaming_scan"
    for rng in (None, RNG):
        def chk(rng=rng):
            r, m = sscan(R, 4, rng, (), False)
            if rng is not None and any(k is not rng for k in m.init_keys):
                return violated(f"init receives {[show(k) for k in m.init_keys]}, not the given key")
            return key_rule(m.keys, rng, 4)

        R.ob("fresh-key", f"{d}[rng={'given' if rng is not None else 'none'}]", chk, where_(R, d))
    d = "wax.stateful.unroll_lift_with_state"

    def chk():
        r, m = lifted(R, 4, FALSE, False, {"split_rng": TRUE})
        if any(is_none_term(k) for k in m.keys):
            return violated("split_rng: a step receives no key")
        return worst([distinct(m.keys)] + ([undecided(f"{len(m.keys)} apply calls")] if len(m.keys) != 4 else []))

    R.ob("fresh-key", f"{d}[split_rng]", chk, where_(R, d))

    def chk():
        r, m = lifted(R, 3, FALSE, False)
        bad = [k for k in m.keys if not is_none_term(k)]
        return violated(f"split_rng=False: a step receives key {show(bad[0])}") if bad else holds()

    R.ob("fresh-key", f"{d}[no split_rng]", chk, where_(R, d))


def distinct(ks):
    for i, a in enumerate(ks):
        if any(b is a for b in ks[:i]):
            return violated(f"two steps receive the same key {show(a)}")
    return holds()


# ------------------------------------------------------------------ Flax pure-function pairs
class FlaxModel:
    """a Flax module object whose init/apply are uninterpreted; collections params, state, cache"""

    def __init__(self, cols=("params", "state", "cache"), born=()):
        self.calls, self.cols, self.born = [], cols, born    # born: collections that first appear when the module is applied

    def build(self, I, st):
        def init(I2, a, k, s):
            t = [I2.term(x, s) for x in a] + [mk("kw", n, I2.term(v, s)) for n, v in sorted(k.items())]
            return I2.alloc(s, PDict({c: mk("app", "INIT" + c.upper(), *t) for c in self.cols}))

        def apply(I2, a, k, s):
            k = dict(k)
            mutable = k.pop("mutable", FALSE)
            rngs = k.pop("rngs", None)
            v = I2.get(s, a[0]) if isinstance(a[0], Ref) else None
            if not isinstance(v, PDict) or v.rest is not None:
                raise GiveUp("variables passed to module.apply are not an explicit mapping")
            cols = {n: I2.term(x, s) for n, x in v.d.items()}
            t = [I2.term(x, s) for x in a[1:]] + [mk("kw", n, I2.term(x, s)) for n, x in sorted(k.items())]
            self.calls.append({"cols": cols, "args": t, "rngs": rngs, "mutable": mutable})
            full = [mk("kw", n, x) for n, x in sorted(cols.items())] + t
            out = mk("app", "OUT", *full)
            if mutable is FALSE:
                return out
            if mutable is TRUE:
                names = list(cols) + [n for n in self.born if n not in cols]
            else:
                it = I2.iter_items(mutable, s) or ([mutable] if isinstance(mutable, T) else None)
                if it is None:
                    raise GiveUp("mutable collections")
                names = [x.args[0] for x in it if isinstance(x, T) and x.op == "obj"]
                names = [n for n in names if n in cols]
            return Tup([out, I2.alloc(s, PDict({n: mk("app", "NEXT" + n.upper(), *full) for n in names}))])

        return Tup([Py("init", init), Py("apply", apply)], "namedtuple", ("init", "apply"), NTCls("module", ("init", "apply")))


def dict_terms(I, st, v):
    p = I.get(st, v) if isinstance(v, Ref) else None
    if isinstance(p, PDict) and p.rest is None:
        return {k: I.term(x, st) for k, x in p.d.items()}
    raise GiveUp(f"not an explicit mapping: {v}")


def eq_map(R, got, want, label):
    if set(got) != set(want):
        return violated(f"{label}: collections {sorted(map(str, got))}, required {sorted(want)}")
    for k in want:
        v = eq_terms(R, got[k], want[k])
        if v.status == "differ":
            return violated(f"{label}.{k}: {v.detail}")
        if v.status != "equal":
            return undecided(f"{label}.{k}: {v.detail}")
    return holds()


def flax_pair(R, cols, rng, instance, mangle=False, born=()):
    m = FlaxModel(cols, born)
    I = Interp(R.p)
    st = S()
    mod = m.build(I, st)
    if instance:
        I.handlers["builtins.isinstance"] = lambda I2, a, k, s: TRUE if a[0] is mod else FALSE
        arg = mod
    else:
        arg = Py("factory", lambda I2, a, k, s: mod)
    s = run_function(R, FT, [arg], {}, I=I, st=st)
    r = []
    x, c = sym("x"), sym("c")
    pr = I.call(I.getattr(s.out, "init", s.st), [RNG, x], {KWX: c}, None, s.st)
    p, q = I.unpack(pr, 2, s.st)
    t = [RNG, x, mk("kw", KWX, c)]
    if "params" in cols:
        r.append(eq_struct(R, I, s.st, p, mk("app", "INITPARAMS", *t), (), "init params"))
    else:
        r.append(eq_map(R, dict_terms(I, s.st, p), {}, "init params"))
    rest = [n for n in cols if n != "params"]
    r.append(eq_map(R, dict_terms(I, s.st, q), {n: mk("app", "INIT" + n.upper(), *t) for n in rest}, "init state"))
    P = sym("p")
    S0 = I.alloc(s.st, PDict({n: sym(n + "_0") for n in rest}))
    o = I.call(I.getattr(s.out, "apply", s.st), [P, S0, rng if rng is not None else NONE, x], {KWX: c}, None, s.st)
    out, new = I.unpack(o, 2, s.st)
    if len(m.calls) != 1:
        return undecided(f"{len(m.calls)} module applications")
    call = m.calls[0]
    want = {"params": P, **{n: sym(n + "_0") for n in rest}}
    r.append(eq_map(R, call["cols"], want, "variables given to the module"))
    full = [mk("kw", n, v) for n, v in sorted(want.items())] + [x, mk("kw", KWX, c)]
    r.append(eq_struct(R, I, s.st, out, mk("app", "OUTX" if mangle else "OUT", *full), (), "output"))
    r.append(eq_map(R, dict_terms(I, s.st, new), {n: mk("app", "NEXT" + n.upper(), *full) for n in (*rest, *born)}, "new state"))
    rg = call["rngs"]
    if rng is None:
        if rg is not None and not is_none_term(I.term(rg, s.st)) and dict_terms(I, s.st, rg):
            r.append(violated("random streams are passed although no key was given"))
    else:
        if rg is None:
            r.append(violated("the given key is not passed to the module"))
        else:
            if not any(v is rng for v in dict_terms(I, s.st, rg).values()):
                r.append(violated(f"the module's random streams {dict_terms(I, s.st, rg)} do not contain the given key"))
    return worst(r)


def split_combine(R):
    I = Interp(R.p)
    st = S()
    v = I.alloc(st, PDict({"state": sym("s"), "params": sym("p"), "cache": sym("c")}))
    s = run_function(R, "wax.flax.core.transform.split_variables", [v], {}, I=I, st=st)
    p, q = I.unpack(s.out, 2, s.st)
    r = [eq_struct(R, I, s.st, p, sym("p"), (), "params"), eq_map(R, dict_terms(I, s.st, q), {"state": sym("s"), "cache": sym("c")}, "state")]
    s2 = run_function(R, "wax.flax.core.transform.combine_variables", [p, q], {}, I=I, st=s.st)
    r.append(eq_map(R, dict_terms(I, s2.st, s2.out), {"state": sym("s"), "cache": sym("c"), "params": sym("p")}, "combined"))
    return worst(r)


def with_state(R, cols):
    m = FlaxModel(cols)
    I = Interp(R.p)
    st = S()
    mod = m.build(I, st)
    v = I.alloc(st, PDict({n: sym(n + "_0") for n in cols}))
    s = run_function(R, "wax.flax.core.state_utils.apply_with_state", [mod, v, sym("x")], {KWX: sym("c")}, I=I, st=st)
    out, new = I.unpack(s.out, 2, s.st)
    want = {n: sym(n + "_0") for n in cols}
    full = [mk("kw", n, x) for n, x in sorted(want.items())] + [sym("x"), mk("kw", KWX, sym("c"))]
    r = [eq_struct(R, I, s.st, out, mk("app", "OUT", *full), (), "output")]
    rest = [n for n in cols if n in ("state", "cache")]
    got = dict_terms(I, s.st, new)
    if rest:
        got = {n: x for n, x in got.items() if n in rest}
        r.append(eq_map(R, got, {n: mk("app", "NEXT" + n.upper(), *full) for n in rest}, "new variables"))
    else:
        r.append(eq_map(R, got, want, "variables"))
    return worst(r)


def jitted(R):
    m = Model()
    I = Interp(R.p)
    st = S()
    pair = m.pair(I, st, TWS)
    s = run_function(R, "wax.compile.jit_init_apply", [pair], {}, I=I, st=st)
    r = []
    o = I.call(I.getattr(s.out, "init", s.st), [RNG, sym("x")], {}, None, s.st)
    r.append(eq_struct(R, I, s.st, o, (mk("app", "INITP", sym("x")), mk("app", "INITS", sym("x"))), (), "init"))
    o = I.call(I.getattr(s.out, "apply", s.st), [sym("p"), sym("s"), NONE, sym("x")], {}, None, s.st)
    a = [sym("p"), sym("s"), sym("x")]
    r.append(eq_struct(R, I, s.st, o, (mk("app", "OUT", *a), mk("app", "STATE", *a)), (), "apply"))
    return worst(r)


@prop("W44")
def flax_pairs(R):
    R.total = True
    R.rule("split", "init splits the variables into params and every other collection; apply hands the module exactly params and all given collections with the arguments, and returns every updated collection but params")
    R.rule("inverse", "combine and split of variables are inverse to each other")
    R.rule("mutable", "apply_with_state lets state and cache collections change and returns them; without such collections the variables are returned as given")
    R.rule("jit", "jitting a pair keeps its functions")
    w = where_(R, FT)
    for cols in (("params", "state", "cache"), ("state",), ("params",)):
        for rng in (None, RNG):
            for inst in (False, True):
                R.ob("split", f"{FT}[collections={'+'.join(cols)},rng={'given' if rng is not None else 'none'},{'instance' if inst else 'factory'}]", lambda: flax_pair(R, cols, rng, inst), w)
    for rng in (None, RNG):
        R.ob("split", f"{FT}[a collection first appears in apply,rng={'given' if rng is not None else 'none'}]", lambda: flax_pair(R, ("params", "state"), rng, False, False, ("aux",)), w)
    R.control(lambda: flax_pair(R, ("params", "state"), None, False, True))
    R.ob("inverse", "wax.flax.core.transform.split_variables/combine_variables", lambda: split_combine(R), where_(R, "wax.flax.core.transform.split_variables"))
    d = "wax.flax.core.state_utils.apply_with_state"
    for cols in (("params", "state"), ("params", "cache"), ("params", "state", "cache"), ("params",)):
        R.ob("mutable", f"{d}[{'+'.join(cols)}]", lambda: with_state(R, cols), where_(R, d))
    R.rule("streaming", "init and apply of a streaming transform are those of the transformed function, for the same arguments and key")
    d = "wax.flax.core.streaming_transforms.StreamingTransform"
    for rng in (None, RNG):
        R.ob("streaming", f"{d}[rng={'given' if rng is not None else 'none'}]", lambda: streaming_pair(R, rng), where_(R, d))
    R.control(lambda: streaming_pair(R, None, True))
    R.ob("jit", "wax.compile.jit_init_apply", lambda: jitted(R), where_(R, "wax.compile.jit_init_apply"))
