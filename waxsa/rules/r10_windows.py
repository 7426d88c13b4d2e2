"""Window and memory modules: Buffer, Lag, Diff, PctChange, Counter, HasChanged, Ffill, RollingMean (Haiku and Flax)."""
from . import prop
from ..judge import *
from ..terms import *

SIB = ("wax.modules", "wax.flax.modules")
fill = sym("fill", nan=True, fixed=1)


def X(k):
    return [sym(f"x{k}", nan=True, inf=True, scalar=True)]


def X2(k):
    return [Arr([sym(f"x{k}a", nan=True, inf=True), sym(f"x{k}b", nan=True, inf=True)])]


def vals(h):
    """history of inputs as spec values"""
    x = h[0]

    def un(x):
        return [un(y) for y in x.items] if isinstance(x, Arr) else x

    return un(x)


def XM(k):
    return [Arr([Arr([sym(f"x{k}{i}{j}", nan=True, inf=True) for j in range(2)]) for i in range(2)])]


def where_(R, d):
    return loc(*R.p.need(d))


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def deep(f, *xs):
    if isinstance(xs[0], list):
        return [deep(f, *ys) for ys in zip(*xs)]
    return f(*xs)


def lift1(f, *xs):
    """apply a scalar specification to every component"""
    if any(isinstance(x, list) for x in xs):
        n = next(len(x) for x in xs if isinstance(x, list))
        return [f(*[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)]
    return f(*xs)


@prop("W10")
def buffers(R):
    R.total = True
    R.rule("buffer-window", "output after any history = the last L inputs, oldest first, fill value where fewer exist")
    R.rule("buffer-state", "with return_state: same window, the reported number of stored elements = min(inputs seen, L) and, where reported, the index of the first of them = L - that number")
    for base in SIB:
        d = f"{base}.buffer.Buffer"
        w = where_(R, d)
        for mk_x, nm in ((X, "scalar"), (X2, "vector"), (XM, "matrix")):
            for L in ((1, 2, 3, 4, 5, 6) if mk_x is X else (1, 2, 3, 5)) + ((7, 8, 10, 16) if R.tier == "thorough" else ()):
                def spec(h, fresh, L=L, nm=nm):
                    h = [vals(x) for x in h]
                    pad = {"scalar": fill, "vector": [fill, fill], "matrix": [[fill, fill], [fill, fill]]}[nm]
                    return ([pad] * max(0, L - len(h)) + h)[-L:]

                R.ob("buffer-window", f"{d}[L={L},{nm}]", lambda: finite_memory(R, module_runner(R, d, {"maxlen": const(L), "fill_value": fill}), mk_x, spec, L - 1, L + 2), w)
        for L in (1, 2, 3, 4, 5) + ((8, 10) if R.tier == "thorough" else ()):
            def chk(L=L):
                run = module_runner(R, d, {"maxlen": const(L), "fill_value": fill, "return_state": TRUE})
                first = run(X(0), None)
                steps = run_chain(run, dict(first.I.slot_init), [X(k) for k in range(2 * L + 2)])
                rs = []
                for t, s in enumerate(steps):
                    o = s.out
                    if not isinstance(o, Tup) or len(o.items) != 2:
                        return violated("no (window, state) pair is returned")
                    b = o.items[1]
                    if isinstance(b, (Tup, Arr, T)) and not (isinstance(b, Tup) and b.names and {"buffer", "len_buffer"} <= set(b.names)):
                        return violated("the returned state does not report the window and the number of stored elements")
                    win = ([fill] * L + [X(k)[0] for k in range(t + 1)])[-L:]
                    rs.append(eq_struct(R, s.I, s.st, o.items[0], win, (), f"window after {t + 1} inputs"))
                    if isinstance(b, Tup) and b.names and "len_buffer" in b.names:
                        rs.append(eq_struct(R, s.I, s.st, b.items[b.names.index("len_buffer")], const(min(t + 1, L)), (), f"stored count after {t + 1} inputs"))
                    if isinstance(b, Tup) and b.names and "i_start" in b.names:
                        rs.append(eq_struct(R, s.I, s.st, b.items[b.names.index("i_start")], const(L - min(t + 1, L)), (), f"start of the stored elements after {t + 1} inputs"))
                    if isinstance(b, Tup) and b.names and "buffer" in b.names:
                        rs.append(eq_struct(R, s.I, s.st, b.items[b.names.index("buffer")], win, (), f"window in the returned state after {t + 1} inputs"))
                return worst(rs)

            R.ob("buffer-state", f"{d}[L={L}]", chk, w)
        R.control(lambda: finite_memory(R, module_runner(R, d, {"maxlen": const(3), "fill_value": fill}), X, lambda h, f: list(reversed(([fill] * 3 + [x[0] for x in h])[-3:])), 2, 4))


def XT(k):
    return [sym(f"x{k}{c}", nan=True, inf=True, scalar=True) for c in "abc"]


def tree_runner(R, base, shift, single=False):
    """tree_lag(shift) applied to a tree of three values and a None"""
    def run(inputs, store):
        I, st = Interp(R.p), S()
        I.scalar_items = True
        if store:
            st.store.update(store)
        f = I.global_value(R.p.need(f"{base}.lag.tree_lag")[0], "tree_lag")
        g = I.call(f, [const(shift)], {}, None, st)
        args = [I.alloc(st, PDict({"u": inputs[0], "v": inputs[1], "w": inputs[2]}))] if single else [inputs[0], Tup([inputs[1], inputs[2]]), NONE]
        out = I.call(g, args, {}, None, st)
        R.saw(I)
        return Step(I, st, out)

    return run


def lag_state(R, d, k):
    run = module_runner(R, d, {"lag": const(k), "fill_value": fill, "return_state": TRUE})
    first = run(X(0), None)
    rs = []
    for t, s in enumerate(run_chain(run, dict(first.I.slot_init), [X(i) for i in range(2 * k + 3)])):
        if not isinstance(s.out, Tup) or len(s.out.items) != 2:
            return violated("no (value, state) pair is returned")
        win = ([fill] * (k + 1) + [X(i)[0] for i in range(t + 1)])[-k - 1:]
        rs.append(eq_struct(R, s.I, s.st, s.out.items[0], win[0], (), f"output {t + 1}"))
        b = s.out.items[1]
        if isinstance(b, Tup) and b.names and "buffer" in b.names:
            rs.append(eq_struct(R, s.I, s.st, b.items[b.names.index("buffer")], win, (), f"window in the returned state after {t + 1} inputs"))
    return worst(rs)


@prop("W11")
def lag_diff(R):
    R.total = True
    R.rule("lag", "Lag(k) returns the input k steps earlier, the fill value before that")
    R.rule("diff", "Diff returns current minus previous input; the first output is NaN")
    for base in SIB:
        d = f"{base}.lag.Lag"
        w = where_(R, d)
        for mk_x, nm in ((X, "scalar"), (X2, "vector")):
            for k in (0, 1, 2, 3, 4, 5) if mk_x is X else (0, 1, 2, 4):
                def spec(h, fresh, k=k, vec=mk_x is X2):
                    if len(h) > k:
                        return vals(h[-1 - k])
                    return [fill, fill] if vec else fill

                R.ob("lag", f"{d}[lag={k},{nm}]", lambda: finite_memory(R, module_runner(R, d, {"lag": const(k), "fill_value": fill}), mk_x, spec, k, k + 2), w)
        R.control(lambda: finite_memory(R, module_runner(R, d, {"lag": const(2), "fill_value": fill}), X, lambda h, f: vals(h[-2]) if len(h) > 1 else fill, 2, 4))
        for k in (1, 2, 3, 5):
            def tspec(h, fresh, k=k):
                a, b, c = h[-1 - k] if len(h) > k else [NAN] * 3
                return [a, [b, c], NONE]

            R.ob("lag", f"{base}.lag.tree_lag[shift={k}]", lambda: finite_memory(R, tree_runner(R, base, k), XT, tspec, k, k + 2), where_(R, f"{base}.lag.tree_lag"))
        for k in (1, 2, 3):
            def sspec(h, fresh, k=k):
                a, b, c = h[-1 - k] if len(h) > k else [NAN] * 3
                return [{"u": a, "v": b, "w": c}]

            R.ob("lag", f"{base}.lag.tree_lag[shift={k},one mapping]", lambda: finite_memory(R, tree_runner(R, base, k, True), XT, sspec, k, k + 2), where_(R, f"{base}.lag.tree_lag"))
        for k in (1, 2, 3):
            R.ob("lag", f"{d}[lag={k},return_state]", lambda: lag_state(R, d, k), w)
        d = f"{base}.diff.Diff"
        w = where_(R, d)
        for mk_x, nm in ((X, "scalar"), (X2, "vector")):
            def spec(h, fresh, vec=mk_x is X2):
                if len(h) > 1:
                    return lift1(lambda a, b: mk("sub", a, b), vals(h[-1]), vals(h[-2]))
                return [NAN, NAN] if vec else NAN

            R.ob("diff", f"{d}[{nm}]", lambda: finite_memory(R, module_runner(R, d, {}), mk_x, spec, 1, 3), w)
        R.control(lambda: finite_memory(R, module_runner(R, d, {}), X, lambda h, f: mk("sub", vals(h[-2]), vals(h[-1])) if len(h) > 1 else NAN, 1, 2))


@prop("W12")
def pct(R):
    R.total = True
    R.rule("pct", "PctChange = x / previous non-missing input - 1 (without forward fill: / the previous input); 0 where x is missing and a previous exists (fillna_zero), NaN before")

    def ff(h):
        v = NAN
        for x in h:
            v = lift1(lambda p, q: ite(mk("isnan", q), p, q), v, x)
        return v

    for base in SIB:
        d = f"{base}.pct_change.PctChange"
        w = where_(R, d)
        for fz in (TRUE, FALSE):
            def spec(h, fresh, fz=fz):
                h = [vals(x) for x in h]
                prev = ff(h[:-1]) if len(h) > 1 else NAN
                x = h[-1]

                def one(x, p):
                    r = mk("sub", mk("div", x, p), ONE)
                    if fz is TRUE:
                        r = ite(and_(mk("isnan", x), not_(mk("isnan", p))), ZERO, r)
                    return r

                return lift1(one, x, prev)

            def rawspec(h, fresh, fz=fz):
                x, p = vals(h[-1]), vals(h[-2]) if len(h) > 1 else NAN
                r = mk("sub", mk("div", x, p), ONE)
                return ite(and_(mk("isnan", x), not_(mk("isnan", p))), ZERO, r) if fz is TRUE else r

            R.ob("pct", f"{d}[fillna_zero={fz is TRUE}]", lambda: pct_decide(R, d, fz, spec), w)
            R.ob("pct", f"{d}[fillna_zero={fz is TRUE},fill_method=None]", lambda: pct_decide(R, d, fz, rawspec, fill_method=NONE), w)
            if fz is TRUE:
                R.ob("pct", f"{d}[default options]", lambda: pct_decide(R, d, None, spec), w)
                R.ob("pct", f"{d}[ffill]", lambda: pct_decide(R, d, None, spec, fill_method=const("ffill")), w)
                R.ob("pct", f"{d}[vector]", lambda: pct_decide(R, d, fz, spec, X2), w)
        R.control(lambda: pct_decide(R, d, TRUE, lambda h, f: mk("sub", mk("div", vals(h[-1]), vals(h[-2]) if len(h) > 1 else NAN), ONE)))


def pct_decide(R, d, fz, spec, X=X, **opts):
    run = module_runner(R, d, ({"fillna_zero": fz} if fz is not None else {}) | opts)
    first, init, states = int_states(run, X(0))
    rs = []
    hist = [X(k) for k in range(4)]
    for t, s in enumerate(run_chain(run, init, hist)):
        rs.append(eq_struct(R, s.I, s.st, s.out, spec(hist[: t + 1], True), (), f"output {t + 1} inputs after the initial state"))
    obs0 = TRUE
    for x in flat(vals(X(0))):
        obs0 = and_(obs0, not_(mk("isnan", x)))
    for st0 in states:
        for n in ((2, 3, 4) if X(0)[0].__class__ is T else (2,)):
            seq = [X(k) for k in range(n)]
            s = run_chain(run, st0, seq)[-1]
            rs.append(eq_struct(R, s.I, s.st, s.out, spec(seq, False), (obs0,), f"output {n} inputs into any history whose last {n} begin with an observed value"))
    w = worst(rs)
    return w if w.status != HOLDS else holds(f"{len(rs)} summaries")


def count_type(R, d):
    """a count kept in a floating type stops at 2**24"""
    seen = []

    def hook(name, x):
        seen.append(name)
        return x

    def setup(I, st, args, kw, cfg):
        I.cast_hook = hook
        return args, kw, cfg

    run = module_runner(R, d, {}, setup=setup)
    run([], None)
    bad = [n for n in seen if "float" in n or "complex" in n]
    return violated(f"the count is converted to {bad[0]}, which cannot hold every count") if bad else holds(f"conversions: {seen}")


@prop("W13")
def counter_changed(R):
    R.total = True
    R.rule("counter", "Counter returns 1, 2, 3, ...")
    R.rule("has-changed", "HasChanged is true iff some component differs from the previous input")
    R.rule("has-changed-first", "a first float input always counts as a change")
    for base in SIB:
        d = f"{base}.counter.Counter"
        w = where_(R, d)

        def chk(d=d, off=0):
            run = module_runner(R, d, {})
            spec = Spec({"count": ZERO}, lambda s, i: (mk("add", s["count"], const(1 + off)), {"count": mk("add", s["count"], ONE)}), flags={})
            return transition(R, run, spec, [], depth=3)

        R.ob("counter", d, chk, w)
        R.ob("counter", f"{d}[type of the count]", lambda: count_type(R, d), w)
        R.control(lambda: chk(d, 1))
        d2 = f"{base}.has_changed.HasChanged"
        w2 = where_(R, d2)

        def FX(k):
            return [Arr([sym(f"x{k}a", dtype="float64", nan=True), sym(f"x{k}b", dtype="float64", nan=True)])]

        def spec2(h, fresh):
            if len(h) < 2:
                return TRUE
            a, b = vals(h[-1]), vals(h[-2])
            return or_(mk("ne", a[0], b[0]), mk("ne", a[1], b[1]))

        R.ob("has-changed", d2, lambda: finite_memory(R, module_runner(R, d2, {}), FX, spec2, 1, 3, out_of=lambda s: s.out), w2)

        def FS(k):
            return [sym(f"x{k}", dtype="float32", nan=True, scalar=True)]

        def FM(k):
            return [Arr([Arr([sym(f"x{k}{i}{j}", dtype="float32", nan=True) for j in range(2)]) for i in range(2)])]

        def spec3(h, fresh):
            if len(h) < 2:
                return TRUE
            r = FALSE
            for p, q in zip(flat(vals(h[-1])), flat(vals(h[-2]))):
                r = or_(r, mk("ne", p, q))
            return r

        for mk_x, nm in ((FS, "scalar"), (FM, "matrix")):
            R.ob("has-changed", f"{d2}[{nm}]", lambda: finite_memory(R, module_runner(R, d2, {}), mk_x, spec3, 1, 3), w2)
        R.control(lambda: finite_memory(R, module_runner(R, d2, {}), FX, lambda h, f: and_(mk("ne", vals(h[-1])[0], vals(h[-2])[0]), mk("ne", vals(h[-1])[1], vals(h[-2])[1])) if len(h) > 1 else TRUE, 1, 3))


@prop("W14")
def fills(R):
    R.total = True
    R.rule("ffill", "Ffill returns the most recent non-missing input, NaN before any")
    R.rule("fill-nan-inf", "FillNanInf replaces exactly NaN and infinite entries by the fill value, leaf by leaf")
    R.rule("rolling-mean", "RollingMean = mean of the non-missing entries among the last `horizon` inputs, NaN if fewer than min_periods")
    for base in SIB:
        d = f"{base}.ffill.Ffill"
        w = where_(R, d)
        for inp, nm in (([sym("x", nan=True, inf=True)], "scalar"),):
            spec = Spec({"valid_value": NAN}, lambda s, i: (lambda v: (v, {"valid_value": v}))(ite(mk("isnan", i[0]), s["valid_value"], i[0])))
            R.ob("ffill", f"{d}[{nm}]", lambda: transition(R, module_runner(R, d, {}), spec, inp), w)
        for mk_x, nm in ((X2, "vector"), (XM, "matrix")):
            def chk(mk_x=mk_x, d=d):
                run = module_runner(R, d, {})
                first = run(mk_x(0), None)
                hist = [mk_x(k) for k in range(3)]
                rs = []
                v = None
                for x, s in zip(hist, run_chain(run, dict(first.I.slot_init), hist)):
                    v = deep(lambda q: q, vals(x)) if v is None else deep(lambda q, p: ite(mk("isnan", q), p, q), vals(x), v)
                    rs.append(eq_struct(R, s.I, s.st, s.out, v))
                return worst(rs)

            R.ob("ffill", f"{d}[{nm}]", chk, w)
        R.control(lambda: transition(R, module_runner(R, d, {}), Spec({"valid_value": NAN}, lambda s, i: (s["valid_value"], {"valid_value": s["valid_value"]})), [sym("x", nan=True, inf=True)]))
        d = f"{base}.fill_nan_inf.FillNanInf"
        w = where_(R, d)

        def chk(d=d):
            f = sym("fill")
            x, y = sym("x", nan=True, inf=True), sym("y", nan=True, inf=True)
            s = run_module(R, d, {"fill_value": f}, [Tup([x, Tup([y])])])
            bad = lambda v: ite(or_(mk("isnan", v), mk("isinf", v)), f, v)
            return worst([eq_struct(R, s.I, s.st, s.out, [bad(x), [bad(y)]])])

        R.ob("fill-nan-inf", d, chk, w)
        d = f"{base}.rolling_mean.RollingMean"
        w = where_(R, d)
        for H in (1, 2, 3, 4) + ((5,) if R.tier == "thorough" else ()):
            for mp in (1, 2, 3):
                if mp > H and mp > 2:
                    continue
                def spec(h, fresh, H=H, mp=mp):
                    win = [vals(x) for x in h][-H:]
                    s, n = ZERO, ZERO
                    for v in win:
                        s = mk("add", s, ite(mk("isnan", v), ZERO, v))
                        n = mk("add", n, ite(mk("isnan", v), ZERO, ONE))
                    return ite(mk("le", const(mp), n), mk("div", s, n), NAN)

                R.ob("rolling-mean", f"{d}[horizon={H},min_periods={mp}]", lambda: finite_memory(R, module_runner(R, d, {"horizon": const(H), "min_periods": const(mp)}), X, spec, H - 1, H + 1), w)
            def vspec(h, fresh, H=H):
                return [
                    ite(mk("le", ONE, n), mk("div", s, n), NAN)
                    for s, n in (
                        (
                            _sum([ite(mk("isnan", v[c]), ZERO, v[c]) for v in win]),
                            _sum([ite(mk("isnan", v[c]), ZERO, ONE) for v in win]),
                        )
                        for win in [[vals(x) for x in h][-H:]]
                        for c in (0, 1)
                    )
                ]
            if H == 2:
                R.ob("rolling-mean", f"{d}[horizon={H},vector]", lambda: finite_memory(R, module_runner(R, d, {"horizon": const(H)}), X2, vspec, H - 1, H + 1), w)
        R.ob("rolling-mean", f"{d}[default min_periods]", lambda: finite_memory(R, module_runner(R, d, {"horizon": const(2)}), X, lambda h, f: default_rm(h), 1, 3), w)
        R.control(lambda: finite_memory(R, module_runner(R, d, {"horizon": const(2), "min_periods": ONE}), X, lambda h, f: vals(h[-1]), 1, 3))


def default_rm(h):
    win = [vals(x) for x in h][-2:]
    s = _sum([ite(mk("isnan", v), ZERO, v) for v in win])
    n = _sum([ite(mk("isnan", v), ZERO, ONE) for v in win])
    return ite(mk("le", ONE, n), mk("div", s, n), NAN)


def _sum(xs):
    r = ZERO
    for x in xs:
        r = mk("add", r, x)
    return r
