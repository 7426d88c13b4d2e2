"""Masked reductions, masking, OHLC bars, conditional update."""
from . import prop
from ..judge import *
from ..terms import *
from .r10_windows import SIB, where_


def grid(name, n, m, **f):
    return [[sym(f"{name}{i}{j}", **f) for j in range(m)] for i in range(n)]


def arr(g):
    if isinstance(g, list):
        return Arr([arr(x) for x in g])
    return g


def zero(x):
    return ite(mk("isnan", x), ZERO, x)


def total(xs):
    r = None
    for x in xs:
        r = x if r is None else mk("add", r, x)
    return r


def groups(n, m, axis):
    if axis is None:
        return [[(i, j) for i in range(n) for j in range(m)]]
    if axis == 0:
        return [[(i, j) for i in range(n)] for j in range(m)]
    return [[(i, j) for j in range(m)] for i in range(n)]


def shaped(vals, axis):
    return vals[0] if axis is None else vals


def some(mg, cells):
    r = FALSE
    for i, j in cells:
        r = or_(r, mg[i][j])
    return r


def one(b):
    return ite(b, ONE, ZERO)


def spec_mean(xg, mg, n, m, axis):
    out = []
    for cells in groups(n, m, axis):
        cnt = total([one(mg[i][j]) for i, j in cells])
        s = total([ite(mg[i][j], zero(xg[i][j]), ZERO) for i, j in cells])
        out.append(mk("div", s, cnt))
    return out


@prop("W30")
def masks(R):
    R.total = True
    R.rule("apply-mask", "selected places keep the input, the others hold the mask value; a 1-d mask is expanded along the stated axis")
    R.rule("mask-mean", "mean over the selected places of each group (missing selected values count as zero)")
    R.rule("mask-std-excluded", "values at excluded places have no influence")
    R.rule("mask-shape", "Haiku: without an axis, a mask whose shape is not that of the data is refused with a ValueError")

    def refused(d, mask, x):
        try:
            s = run_module(R, d, {}, [arr(mask), arr(x)])
        except AbsRaise as e:
            return holds() if "ValueError" in str(e.exc) else violated(f"raises {e.exc}")
        return violated(f"a mask of another shape gives {show(s.I.term(s.out, s.st))[:200]}")

    bs = lambda n, m: grid("m", n, m, boolean=True)
    for nm, mask, x in (("rows", bs(1, 3), grid("x", 2, 3)), ("columns", bs(2, 1), grid("x", 2, 3)), ("vector", bs(1, 3)[0], grid("x", 2, 3)), ("single", bs(1, 1), grid("x", 2, 2)), ("longer", bs(1, 3)[0], grid("x", 1, 2)[0]), ("transposed", bs(2, 3), grid("x", 3, 2))):
        R.ob("mask-shape", f"wax.modules.apply_mask.ApplyMask[{nm}]", lambda: refused("wax.modules.apply_mask.ApplyMask", mask, x), where_(R, "wax.modules.apply_mask.ApplyMask"))
    for base in SIB:
        d = f"{base}.apply_mask.ApplyMask"
        w = where_(R, d)
        xg, mg = grid("x", 2, 3, nan=True), grid("m", 2, 3, boolean=True)
        v = sym("mv", fixed=1)
        R.ob("apply-mask", f"{d}[full mask]", lambda: eq_mod(R, d, {"mask_value": v}, [arr(mg), arr(xg)], [[ite(mg[i][j], xg[i][j], v) for j in range(3)] for i in range(2)]), w)
        R.ob("apply-mask", f"{d}[default value]", lambda: eq_mod(R, d, {}, [arr(mg), arr(xg)], [[ite(mg[i][j], xg[i][j], ZERO) for j in range(3)] for i in range(2)]), w)
        m0, m1 = [sym(f"q{i}", boolean=True) for i in range(2)], [sym(f"q{i}", boolean=True) for i in range(3)]
        R.ob("apply-mask", f"{d}[axis=0]", lambda: eq_mod(R, d, {"axis": const(0), "mask_value": v}, [arr(m0), arr(xg)], [[ite(m0[i], xg[i][j], v) for j in range(3)] for i in range(2)]), w)
        R.ob("apply-mask", f"{d}[axis=1]", lambda: eq_mod(R, d, {"axis": const(1), "mask_value": v}, [arr(m1), arr(xg)], [[ite(m1[j], xg[i][j], v) for j in range(3)] for i in range(2)]), w)
        for nm, mv in (("default value", None), ("mask_value=0", const(0)), ("mask_value=-1", const(-1)), ("mask_value=nan", NAN)):
            put = ZERO if mv is None else mv
            more = {} if mv is None else {"mask_value": mv}
            R.ob("apply-mask", f"{d}[axis=0,{nm}]", lambda: eq_mod(R, d, {"axis": const(0), **more}, [arr(m0), arr(xg)], [[ite(m0[i], xg[i][j], put) for j in range(3)] for i in range(2)]), w)
            R.ob("apply-mask", f"{d}[axis=1,{nm}]", lambda: eq_mod(R, d, {"axis": const(1), **more}, [arr(m1), arr(xg)], [[ite(m1[j], xg[i][j], put) for j in range(3)] for i in range(2)]), w)
        two = [ite(m0[i], sym(f"z{i}", nan=True), v) for i in range(2)]
        R.ob("apply-mask", f"{d}[nested input]", lambda: eq_mod(R, d, {"mask_value": v}, [arr(m0), Tup([arr([sym(f"z{i}", nan=True) for i in range(2)]), arr([sym(f"u{i}", nan=True) for i in range(2)])])], (two, [ite(m0[i], sym(f"u{i}", nan=True), v) for i in range(2)])), w)
        if "flax" in base:
            cube = [[[sym(f"x{i}{j}{k}", nan=True) for k in range(2)] for j in range(3)] for i in range(2)]
            for ax, mk_, pick in ((0, m0, lambda i, j: m0[i]), (1, m1, lambda i, j: m1[j])):
                R.ob("apply-mask", f"{d}[axis={ax},3 dimensions]", lambda: eq_mod(R, d, {"axis": const(ax), "mask_value": v}, [arr(mk_), arr(cube)], [[[ite(pick(i, j), cube[i][j][k], v) for k in range(2)] for j in range(3)] for i in range(2)]), w)
        R.control(lambda: eq_mod(R, d, {"axis": const(0), "mask_value": v}, [arr(m0), arr(xg)], [[ite(m0[1 - i], xg[i][j], v) for j in range(3)] for i in range(2)]))
        d = f"{base}.mask_mean.MaskMean"
        w = where_(R, d)
        for axis in (None, 0, 1):
            n, m = (2, 2)
            xg, mg = grid("x", n, m, nan=True), grid("m", n, m, boolean=True)
            want = spec_mean(xg, mg, n, m, axis)
            asm = [some(mg, c) for c in groups(n, m, axis)]
            R.ob("mask-mean", f"{d}[axis={axis}]", lambda: eq_mod(R, d, {} if axis is None else {"axis": const(axis)}, [arr(mg), arr(xg)], shaped(want, axis), asm), w)
            def empty(d=d, axis=axis, n=n, m=m):
                """a group without selected place has no mean"""
                xf = grid("x", n, m)
                rs = []
                gs = groups(n, m, axis)
                for k, cells in enumerate(gs):
                    mk_ = [[FALSE if (i, j) in cells else TRUE for j in range(m)] for i in range(n)]
                    want = [NAN if c is cells else mk("div", total([xf[i][j] for i, j in c]), const(len(c))) for c in gs]
                    rs.append(eq_mod(R, d, {} if axis is None else {"axis": const(axis)}, [arr(mk_), arr(xf)], shaped(want, axis)))
                return worst(rs)

            R.ob("mask-mean", f"{d}[axis={axis},empty group]", empty, w)
        R.control(lambda: eq_mod(R, d, {"axis": const(0)}, [arr(mg), arr(xg)], spec_mean(xg, mg, 2, 2, 1)))


def eq_mod(R, d, cfg, args, want, assume=()):
    s = run_module(R, d, cfg, args)
    return eq_struct(R, s.I, s.st, s.out, want, assume)


def ideal(t):
    """replace machine-precision constants (finfo(...).eps and the like) by zero"""
    m = {s: ZERO for s in subterms(t) if s.op == "attr" and isinstance(s.args[0], T) and s.args[0].op == "app" and str(s.args[0].args[0]).endswith("finfo")}
    return subst(t, m) if m else t


def ideal_v(v):
    if isinstance(v, Arr):
        return Arr([ideal_v(x) for x in v.items])
    return ideal(v) if isinstance(v, T) else v


def spec_std(xg, mg, n, m, axis, centered):
    out = []
    for cells in groups(n, m, axis):
        cnt = total([one(mg[i][j]) for i, j in cells])
        mean = ZERO if centered else mk("div", total([ite(mg[i][j], xg[i][j], ZERO) for i, j in cells]), cnt)
        sq = total([ite(mg[i][j], mk("pow", mk("sub", xg[i][j], mean), const(2)), ZERO) for i, j in cells])
        var = mk("div", sq, cnt)
        out.append(ite(mk("lt", ZERO, var), mk("sqrt", var), ZERO))
    return out


def eq_ideal(R, d, cfg, args, want, assume=()):
    s = run_module(R, d, cfg, args)
    return eq_struct(R, s.I, s.st, ideal_v(s.out), want, assume)


def group_of(n, m, axis, vals):
    """value of the group of each cell"""
    gs = groups(n, m, axis)
    return [[next(v for c, v in zip(gs, vals) if (i, j) in c) for j in range(m)] for i in range(n)]


def no_influence(R, d, cfg, mg, n, m, asm):
    """outputs with two different contents of the excluded places agree"""
    a, b = grid("x", n, m), grid("y", n, m, nan=True)
    u = grid("z", n, m, nan=True)
    sa = run_module(R, d, cfg, [arr(mg), arr(a)])
    sub = {}
    for i in range(n):
        for j in range(m):
            sub[a[i][j]] = ite(mg[i][j], a[i][j], b[i][j])
    sub2 = {a[i][j]: ite(mg[i][j], a[i][j], u[i][j]) for i in range(n) for j in range(m)}
    ga, gb = leaves_of(ideal_v(sa.out), sa.I, sa.st), leaves_of(ideal_v(sa.out), sa.I, sa.st)
    rs = []
    for (k, x), (_, y) in zip(ga, gb):
        v = eq_terms(R, subst(x, sub), subst(y, sub2), asm)
        rs.append(holds() if v.status == "equal" else violated(f"output{k} depends on an excluded value: {v.detail}") if v.status == "differ" else undecided(v.detail))
    return worst(rs)


@prop("W31")
def mask_std(R):
    R.total = True
    R.rule("mask-std", "root of the population variance of the selected values of each group about their mean (or about zero when centred), 0 for zero variance")
    R.rule("mask-normalize", "every place divided by the masked std of its group, with NaN and infinities replaced by zero")
    R.rule("excluded-inert", "values at excluded places (including NaN) never change a masked mean or std")
    for base in SIB:
        for axis in (None, 0, 1):
            ax = {} if axis is None else {"axis": const(axis)}
            n, m = 2, 2
            xg, mg = grid("x", n, m), grid("m", n, m, boolean=True)
            asm = [some(mg, c) for c in groups(n, m, axis)]
            for cen in (False, True):
                cfg = dict(ax)
                if cen:
                    cfg["assume_centered"] = TRUE
                d = f"{base}.mask_std.MaskStd"
                st = spec_std(xg, mg, n, m, axis, cen)
                R.ob("mask-std", f"{d}[axis={axis},centered={cen}]", lambda: eq_ideal(R, d, cfg, [arr(mg), arr(xg)], shaped(st, axis), asm), where_(R, d))
                d2 = f"{base}.mask_normalize.MaskNormalize"
                g = group_of(n, m, axis, st)
                want = [[ite(mk("lt", ZERO, g[i][j]), mk("div", xg[i][j], g[i][j]), ZERO) for j in range(m)] for i in range(n)]
                if axis is not None:
                    R.ob("mask-normalize", f"{d2}[axis={axis},centered={cen}]", lambda: eq_ideal(R, d2, cfg, [arr(mg), arr(xg)], want, asm), where_(R, d2))
                R.ob("excluded-inert", f"{d}[axis={axis},centered={cen}]", lambda: no_influence(R, d, cfg, mg, n, m, asm), where_(R, d))
            d = f"{base}.mask_mean.MaskMean"
            R.ob("excluded-inert", f"{d}[axis={axis}]", lambda: no_influence(R, d, ax, mg, n, m, asm), where_(R, d))
        R.control(lambda: eq_ideal(R, f"{base}.mask_std.MaskStd", {"axis": const(0)}, [arr(mg), arr(xg)], spec_std(xg, mg, 2, 2, 1, False), asm))


@prop("W32")
def ohlc(R):
    R.total = True
    R.rule("components", "every component of an array has bins of its own; a reset concerns all of them")
    R.rule("ohlc", "per bin: first, largest, smallest and last observed value since the last reset; missing inputs change nothing; a reset starts a new bin with its own input")
    x, r = sym("x", nan=True), sym("r", boolean=True)

    def step(s, ins, wrong=False):
        x, r = ins
        o, h, l, c = [ite(r, NAN, s[k]) for k in ("open", "high", "low", "close")]
        seen, obs = not_(mk("isnan", o)), not_(mk("isnan", x))
        pick = lambda old, upd: ite(obs, ite(seen, upd, x), old)
        n = {"open": pick(o, o), "high": pick(h, mk("max", h, x)), "low": pick(l, mk("min", l, x)), "close": ite(obs, x, c)}
        if wrong:
            n["open"] = pick(o, x)
        return [n["open"], n["high"], n["low"], n["close"]], n

    inv = lambda s: [not_(mk("xor", mk("isnan", s["open"]), mk("isnan", s[k]))) for k in ("high", "low", "close")] + [
        or_(mk("isnan", s["close"]), and_(mk("le", s["low"], s["close"]), mk("le", s["close"], s["high"])))
    ]
    init = {k: NAN for k in ("open", "high", "low", "close")}
    for base in SIB:
        d = f"{base}.ohlc.OHLC"
        R.ob("ohlc", d, lambda: transition(R, module_runner(R, d, {}, ("reset_on",)), Spec(init, step, inv), [x, r]), where_(R, d))
        R.ob("components", d, lambda: alone(R, d, {}, lambda k, i: [sym(f"x{k}_{i}", nan=True, scalar=True), sym(f"r{k}", boolean=True, scalar=True)], shared=1, kwnames=("reset_on",)), where_(R, d))
        R.control(lambda: transition(R, module_runner(R, d, {}, ("reset_on",)), Spec(init, lambda s, i: step(s, i, True), inv), [x, r]))


def with_inner(dotted, cfg, rest=(), sibling=None):
    """constructor setup: the wrapped module is built first and passed as `module`"""

    def setup(I, st, args, kw, c):
        import ast as _a

        parts = dotted.split(".")
        mod, node = I.p.need(dotted)
        cls = I.global_value(mod, node.name)
        if sibling is True:
            inst = I.call(cls, [], dict(cfg), None, st)
        if sibling is not None:
            # another module of the same class, which advances at every step
            I.call(I.call(cls, [], dict(cfg), None, st), [], {}, None, st)
        if sibling is not True:
            inst = I.call(cls, [], dict(cfg), None, st)
        return args, kw, {**c, "module": inst}

    return setup


@prop("W33")
def update_on_event(R):
    R.total = True
    R.rule("event-gate", "with the event: the wrapped module's output and successor state; without it: the previous output and the wrapped module's unchanged state")
    R.rule("event-output", "Flax: with the event the new output, otherwise the last output produced on an event (the initial value before any)")
    e, x, v0 = sym("e", boolean=True), sym("x", nan=True), sym("v0", nan=True, fixed=1)
    d = "wax.modules.update_on_event.UpdateOnEvent"

    def st_count(s, ins):
        e = ins[0]
        n = mk("add", s["n"], ONE)
        o = ite(e, n, s["o"])
        return o, {"n": ite(e, n, s["n"]), "o": o}

    R.ob("event-gate", f"{d}[Counter]", lambda: transition(R, module_runner(R, d, {"initial_output_value": v0}, preload=True, setup=with_inner("wax.modules.counter.Counter", {})), Spec({"n": ZERO, "o": v0}, st_count), [e]), where_(R, d))

    def st_sib(s, ins):
        o, z = st_count(s, ins)
        return o, {**z, "n2": mk("add", s["n2"], ONE)}

    for first in (True, False):
        R.ob("event-gate", f"{d}[Counter beside another one{' called first' if first else ''}]", lambda: transition(R, module_runner(R, d, {"initial_output_value": v0}, preload=True, setup=with_inner("wax.modules.counter.Counter", {}, sibling=first)), Spec({"n": ZERO, "o": v0, "n2": ZERO}, st_sib), [e]), where_(R, d))
    for inner, cfg in (("wax.modules.lag.Lag", {"lag": ONE}), ("wax.modules.ffill.Ffill", {})):
        def st_lag(s, ins, inner=inner):
            e, x = ins
            if inner.endswith("Lag"):
                y, p = s["p"], x
            else:
                y = p = ite(mk("isnan", x), s["p"], x)
            o = ite(e, y, s["o"])
            return o, {"p": ite(e, p, s["p"]), "o": o}

        R.ob("event-gate", f"{d}[{inner.split('.')[-1]}]", lambda: transition(R, module_runner(R, d, {}, preload=True, setup=with_inner(inner, cfg)), Spec({"p": NAN, "o": NAN}, st_lag), [e, x]), where_(R, d))
    R.control(lambda: transition(R, module_runner(R, d, {"initial_output_value": v0}, preload=True, setup=with_inner("wax.modules.counter.Counter", {})), Spec({"n": ZERO, "o": v0}, lambda s, i: (st_count(s, i)[0], {"n": mk("add", s["n"], ONE), "o": st_count(s, i)[0]})), [e]))
    d2 = "wax.flax.core.streaming_transforms.ConditionalComputation"
    f, g = sym("update_fn", fixed=1), sym("event_fn", fixed=1)
    ap = lambda fn, x: mk("call", fn, x)

    def st_cond(s, ins):
        x = ins[0]
        o = ite(ap(g, x), ap(f, x), s["o"])
        return o, {"o": o}

    R.ob("event-output", f"{d2}[event]", lambda: transition(R, module_runner(R, d2, {"update_fn": f, "event_fn": g, "initial_output_value": v0}), Spec({"o": v0}, st_cond), [x]), where_(R, d2))
    F = Py("update", lambda I, a, k, s: mk("app", "UPD", *[I.term(y, s) for y in a], *[mk("kw", n, I.term(k[n], s)) for n in sorted(k)]))
    G = Py("event", lambda I, a, k, s: mk("truth", mk("app", "EVENT", *[I.term(y, s) for y in a], *[mk("kw", n, I.term(k[n], s)) for n in sorted(k)])))

    def st_named(s, ins):
        a = [ins[0], mk("kw", "c", ins[1])]
        o = ite(mk("truth", mk("app", "EVENT", *a)), mk("app", "UPD", *a), s["o"])
        return o, {"o": o}

    R.ob("event-output", f"{d2}[event,an argument by name]", lambda: transition(R, module_runner(R, d2, {"update_fn": F, "event_fn": G, "initial_output_value": v0}, ("c",)), Spec({"o": v0}, st_named), [x, sym("c")]), where_(R, d2))
    F2 = Py("update", lambda I, a, k, s: Tup([mk("app", f"UPD{i}", *[I.term(y, s) for y in a]) for i in "AB"]))

    def st_two(s, ins):
        ev = mk("truth", mk("app", "EVENT", ins[0]))
        o = [ite(ev, mk("app", f"UPD{i}", ins[0]), s["o" + i]) for i in "AB"]
        return tuple(o), {"oA": o[0], "oB": o[1]}

    R.ob("event-output", f"{d2}[event,two outputs]", lambda: transition(R, module_runner(R, d2, {"update_fn": F2, "event_fn": G, "initial_output_value": v0}), Spec({"oA": v0, "oB": v0}, st_two), [x]), where_(R, d2))
    R.ob("event-output", f"{d2}[always]", lambda: transition(R, module_runner(R, d2, {"update_fn": f}), Spec({"o": NAN}, lambda s, i: (ap(f, i[0]), {"o": ap(f, i[0])})), [x]), where_(R, d2))
    R.control(lambda: transition(R, module_runner(R, d2, {"update_fn": f, "event_fn": g, "initial_output_value": v0}), Spec({"o": v0}, lambda s, i: (ite(ap(g, i[0]), ap(f, i[0]), s["o"]), {"o": ap(f, i[0])})), [x]))
