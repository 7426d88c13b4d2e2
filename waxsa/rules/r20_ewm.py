"""Exponentially weighted mean / variance / covariance (Haiku and Flax)."""
from . import prop
from ..judge import *
from ..terms import *

SIB = ("wax.modules", "wax.flax.modules")
com = sym("com", pos=True, fixed=1)
alpha = sym("alpha", pos=True, fixed=1)
iv = sym("iv", fixed=1)


def A(op, *a):
    return mk(op, *a)


def where_(R, d):
    return loc(*R.p.need(d))


def ewma_step(m, w, n, x, com, adjust, ignore_na, min_periods):
    """pandas' recursion (aggregations.ewma), written on (mean, weight, count); weight is meaningless while mean is NaN"""
    al = A("div", ONE, A("add", ONE, com))
    obs = not_(A("isnan", x))
    nan_m = A("isnan", m)
    new = ONE if adjust else al
    if adjust == "linear":
        wc = A("min", w, com)
        dec = ite(obs, wc, A("mul", wc, A("max", ZERO, A("div", A("sub", w, ONE), w))))
    else:
        dec = A("mul", w, A("sub", ONE, al))
    w1 = ite(nan_m, ZERO, ite(or_(obs, FALSE if ignore_na else TRUE), dec, A("min", w, com) if adjust == "linear" else w))
    m1 = ite(obs, ite(nan_m, x, A("div", A("add", A("mul", w1, m), A("mul", new, x)), A("add", w1, new))), m)
    eff = A("div", w1, new)
    w2 = ite(obs, A("add", w1, ONE) if adjust else ONE, w1)
    n1 = ite(obs, A("add", n, ONE), n)
    out = ite(A("le", const(min_periods), n1), m1, NAN) if min_periods else m1
    return out, m1, w2, n1, eff


def ewma_spec(adjust, ignore_na, mp, info, c=com, init=NAN):
    def step(s, i):
        x = i[0]
        out, m1, w2, n1, eff = ewma_step(s["mean"], s["old_wt"], s["nobs"], x, c, adjust, ignore_na, mp)
        o = [out, {"com_eff": eff, "nobs": n1}] if info else out
        return o, {"mean": m1, "old_wt": Guarded(not_(mk("isnan", m1)), w2), "nobs": n1}

    return Spec({"mean": init, "old_wt": ONE, "nobs": ZERO}, step, inv=lambda s: [mk("lt", ZERO, s["old_wt"]), mk("le", ZERO, s["nobs"])])


def single_x(k, i):
    return [sym(f"x{k}_{i}", nan=True, scalar=True)]


CONF = [(a, i) for a in (True, False, "linear") for i in (False, True)]


@prop("W20")
def ewma(R):
    R.total = True
    R.rule("ewma-transition", "one step of EWMA equals the documented recursion for every mode, NaN pattern and previous state")
    R.rule("components", "every component of an array evolves like a scalar input of its own")
    R.rule("ewma-info", "return_info reports the effective centre of mass and the number of observations")
    for base in SIB:
        d = f"{base}.ewma.EWMA"
        w = where_(R, d)
        for adj, ign in CONF:
            cfg = {"com": com, "adjust": const(adj), "ignore_na": const(ign)}
            R.ob("ewma-transition", f"{d}[adjust={adj},ignore_na={ign}]", lambda: transition(R, module_runner(R, d, cfg), ewma_spec(adj, ign, 0, False), [sym("x", nan=True)]), w)
        for adj in (True, False):
            cfg = {"com": com, "adjust": const(adj), "min_periods": const(3)}
            R.ob("ewma-transition", f"{d}[min_periods=3,adjust={adj}]", lambda: transition(R, module_runner(R, d, cfg), ewma_spec(adj, False, 3, False), [sym("x", nan=True)], depth=4), w)
            cfg2 = {"com": com, "adjust": const(adj), "initial_value": iv}
            R.ob("ewma-transition", f"{d}[initial_value,adjust={adj}]", lambda: transition(R, module_runner(R, d, cfg2), ewma_spec(adj, False, 0, False, init=iv), [sym("x", nan=True)]), w)
            cfg3 = {"alpha": alpha, "adjust": const(adj)}
            R.ob("ewma-transition", f"{d}[alpha,adjust={adj}]", lambda: transition(R, module_runner(R, d, cfg3), ewma_spec(adj, False, 0, False, c=mk("sub", mk("div", ONE, alpha), ONE)), [sym("x", nan=True)]), w)
        for adj in (True, "linear", False):
            for mp in (1, 2):
                cfg4 = {"com": com, "adjust": const(adj), "min_periods": const(mp), "initial_value": iv, "ignore_na": const(mp == 1)}
                R.ob("ewma-transition", f"{d}[min_periods={mp},initial_value,adjust={adj}]", lambda: transition(R, module_runner(R, d, cfg4), ewma_spec(adj, mp == 1, mp, False, init=iv), [sym("x", nan=True)], depth=3), w)
            cfg5 = {"alpha": alpha, "adjust": const(adj), "min_periods": const(2), "return_info": TRUE, "ignore_na": TRUE}
            R.ob("ewma-info", f"{d}[min_periods=2,alpha,ignore_na,adjust={adj}]", lambda: transition(R, module_runner(R, d, cfg5), ewma_spec(adj, True, 2, True, c=mk("sub", mk("div", ONE, alpha), ONE)), [sym("x", nan=True)], depth=3), w)
            cfg = {"com": com, "adjust": const(adj), "return_info": TRUE}
            R.ob("ewma-info", f"{d}[adjust={adj}]", lambda: transition(R, module_runner(R, d, cfg), ewma_spec(adj, False, 0, True), [sym("x", nan=True)]), w)
            for mp, info in ((0, False), (2, True)):
                cfg = {"com": com, "adjust": const(adj), "min_periods": const(mp), "ignore_na": const(info), **({"return_info": TRUE} if info else {})}
                R.ob("components", f"{d}[adjust={adj}{',min_periods=2,ignore_na,return_info' if info else ''}]", lambda: alone(R, d, cfg, single_x), w)
        R.control(lambda: transition(R, module_runner(R, d, {"com": com}), ewma_spec(True, True, 0, False), [sym("x", nan=True)]))


@prop("W21")
def ewmvar(R):
    R.total = True
    R.rule("components", "every component of an array evolves like a scalar input of its own")
    R.rule("ewmvar-transition", "one step of EWMVar equals Finch's incremental weighted variance for every mode, NaN pattern and state")

    def spec(adjust, c=com):
        def step(s, i):
            x = i[0]
            obs = not_(mk("isnan", x))
            n1 = ite(obs, A("add", s["nobs"], ONE), s["nobs"])
            al = A("div", ONE, A("add", ONE, c))
            if adjust == "linear":
                ts = A("min", n1, A("div", ONE, al))
                al = A("div", ONE, ts)
            elif adjust:
                al = A("div", al, A("sub", ONE, A("pow", A("sub", ONE, al), n1)))
            m0 = ite(A("isnan", s["mean"]), x, s["mean"])
            v0 = ite(A("isnan", s["variance"]), ZERO, s["variance"])
            dlt = A("sub", x, m0)
            m1 = ite(obs, A("add", m0, A("mul", al, dlt)), m0)
            v1 = ite(obs, A("mul", A("sub", ONE, al), A("add", v0, A("mul", al, A("mul", dlt, dlt)))), v0)
            return v1, {"mean": m1, "variance": v1, "nobs": n1}

        return Spec({"mean": NAN, "variance": NAN, "nobs": ZERO}, step, inv=lambda s: [mk("le", ZERO, s["nobs"])])

    for base in SIB:
        d = f"{base}.ewmvar.EWMVar"
        w = where_(R, d)
        for adj in (True, False, "linear"):
            R.ob("ewmvar-transition", f"{d}[adjust={adj}]", lambda: transition(R, module_runner(R, d, {"com": com, "adjust": const(adj)}), spec(adj), [sym("x", nan=True)]), w)
            R.ob("components", f"{d}[adjust={adj}]", lambda: alone(R, d, {"com": com, "adjust": const(adj)}, single_x), w)
        R.ob("ewmvar-transition", f"{d}[alpha]", lambda: transition(R, module_runner(R, d, {"alpha": alpha}), spec(True, mk("sub", mk("div", ONE, alpha), ONE)), [sym("x", nan=True)]), w)
        R.control(lambda: transition(R, module_runner(R, d, {"com": com, "adjust": TRUE}), spec(False), [sym("x", nan=True)]))


OPTS = ("min_periods", "adjust", "ignore_na", "initial_value")
DEF = {"min_periods": ZERO, "adjust": TRUE, "ignore_na": FALSE, "initial_value": NAN}


def ewma_term(c, opts, x, nth=0):
    return mk("call", sym("ewma", callable=1), c, *[opts[o] for o in OPTS], x, *([const(nth)] if nth else []))


def ewma_model(I, cls, args, kwargs, st):
    """a moving-average instance with its own state, as an uninterpreted function of its options and input"""
    if args or "return_info" in kwargs:
        raise GiveUp("EWMA constructed with unusual arguments")
    k = {a: b for a, b in kwargs.items() if a not in ("name", "parent")}
    c, al = k.pop("com", NONE), k.pop("alpha", NONE)
    none = lambda v: v is NONE
    if none(c) and none(al):
        raise GiveUp("EWMA without com or alpha")
    if none(c):
        c = mk("sub", mk("div", ONE, I.term(al, st)), ONE)
    opts = {o: I.term(k.pop(o, DEF[o]), st) for o in OPTS}
    if k:
        raise GiveUp(f"EWMA options {list(k)}")
    cnt = [0]

    def call(I, a, kw, s):
        n = cnt[0]
        cnt[0] += 1
        return I.lift(lambda x: ewma_term(c, opts, x, n), a[0] if a else list(kw.values())[0], st=s)

    return Py("ewma-instance", call)


@prop("W22")
def ewmcov(R):
    R.total = True
    R.rule("ewmcov", "covariance[i,j] = ewma(x_i*y_j) - ewma(x_i)*ewma(y_j) (without the second term if assume_centered), each mean a separate EWMA with the module's own options")
    inp = [Arr([sym("x0", nan=True), sym("x1", nan=True)]), Arr([sym("y0", nan=True), sym("y1", nan=True), sym("y2", nan=True)])]
    mp, ign = sym("min_periods", int=True, fixed=1), sym("ignore_na", boolean=True, fixed=1)

    def decide(d, cfg, opts, c, centered, wrong=False, pair=False):
        s = run_module(R, d, cfg, [Tup(inp)] if pair else inp, class_models={f"{b}.ewma.EWMA": ewma_model for b in SIB})
        E = lambda v: ewma_term(c, opts, v)
        x, y = inp[0].items, inp[1].items
        want = [[E(A("mul", a, b)) if centered else A("sub", E(A("mul", a, b)), A("mul", E(a), E(a if wrong else b))) for b in y] for a in x]
        return eq_struct(R, s.I, s.st, s.out, want)

    for base in SIB:
        d = f"{base}.ewmcov.EWMCov"
        w = where_(R, d)
        for cen in (False, True):
            for adj in (TRUE, FALSE, const("linear")):
                o = {"min_periods": mp, "adjust": adj, "ignore_na": ign, "initial_value": iv}
                for nm, key, c in (("com", com, com), ("alpha", alpha, mk("sub", mk("div", ONE, alpha), ONE))):
                    R.ob("ewmcov", f"{d}[{nm},adjust={adj},assume_centered={cen}]", lambda: decide(d, {nm: key, "assume_centered": const(cen), **o}, o, c, cen), w)
            o = {**DEF, "min_periods": ZERO if base == "wax.modules" else ONE}
            R.ob("ewmcov", f"{d}[pair,assume_centered={cen}]", lambda: decide(d, {"com": com, "assume_centered": const(cen), **o}, o, com, cen, pair=True), w)
        R.control(lambda: decide(d, {"com": com, "assume_centered": FALSE, **o}, o, com, False, True))
