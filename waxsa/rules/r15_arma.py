"""Autoregressive moving-average filter and the features of the adaptive forecaster."""
from . import prop
from ..interp import Arr
from ..judge import *
from ..terms import *
from .r10_windows import where_

DOTTED = ("wax.modules.arma.ARMA", "wax.flax.modules.arma.ARMA")
SNX = "wax.modules.snarimax.SNARIMAX"


def fill0(t):
    return mk("nan_to_num", t, ZERO, ZERO, ZERO)


def vec(nm, k, **flags):
    """one input: a scalar, or a vector with k components"""
    return sym(nm, **flags) if k is None else Arr([sym(f"{nm}_{i}", **flags) for i in range(k)])


def comps(v):
    return [v] if isinstance(v, T) else list(v.items)


def weighted(coefs, rows, newest_first, k):
    """sum of coefficient times past row, one coefficient per row; rows oldest first"""
    t = ZERO
    rs = list(reversed(rows)) if newest_first else rows
    for c, r in zip(coefs, rs):
        t = mk("add", t, mk("mul", c, r[k]))
    return t


def truncating(name, x):
    """a conversion to an integer type loses the fraction of everything but the integer inputs"""
    if "int" not in name:
        return x
    if x.op == "expand" and isinstance(x.args[1], T):
        return mk("expand", x.args[0], truncating(name, x.args[1]))
    if x.op == "ite":
        return ite(x.args[0], truncating(name, x.args[1]), truncating(name, x.args[2]))
    inner = x.args[0] if x.op == "nan_to_num" and isinstance(x.args[0], T) else x
    if inner.op == "sym" and "int" in str(sym_flags(inner).get("dtype", "")) or x.op == "num" and x.args[0].denominator == 1:
        return x
    return mk("app", "TRUNCATED", x)


def arma_seq(R, d, p, q, k, arbitrary, shift=0, **flags):
    al, be = [sym(f"al{i}") for i in range(p)], [sym(f"be{i}") for i in range(q)]
    A, B = Arr(al), Arr(be)
    nsteps = max(p, q) + (1 if arbitrary else 3)
    eps = [vec(f"e{t}", k, **flags) for t in range(nsteps)]

    def setup(I, st, args, kw, cfg):
        I.scalars = I.scalar_items = I.concrete = True
        if flags.get("dtype"):
            I.cast_hook = truncating
        return args, kw, cfg

    run = lambda x, store: run_module(R, d, {"alpha": A, "beta": B}, [x], store=store, setup=setup)
    first, init, states = int_states(run, eps[0], 32)
    out = []
    for st0 in (states if arbitrary else [init]):
        steps = run_chain(run, st0, eps)
        outs = []
        for s in steps:
            ls = [t for _, t in leaves_of(s.out, s.I, s.st)]
            if len(ls) != (k or 1):
                return undecided(f"output of shape {[n for n, _ in leaves_of(s.out, s.I, s.st)]}")
            outs.append(ls)
        for nf in (False, True):
            rs = []
            for t in range(nsteps - 1 if arbitrary else 0, nsteps):
                zero = [ZERO] * (k or 1)
                ys = [outs[t - i] if t - i >= 0 else zero for i in range(p, 0, -1)]
                es = [comps(eps[t - i]) if t - i >= 0 else zero for i in range(q + shift, shift, -1)]
                want = [fill0(mk("add", comps(eps[t])[c], mk("add", weighted(al, ys, nf, c), weighted(be, es, nf, c)))) for c in range(k or 1)]
                for a, b in zip(outs[t], want):
                    rs.append(eq_struct(R, steps[t].I, steps[t].st, a, b, (), f"output {t + 1}"))
                if rs[-1].status == "violated":
                    break
            out.append((nf, worst(rs)))
    # the coefficients are attached to the lags in one of the two customary orders, the same one everywhere
    per = [worst([r for o, r in out if o is nf]) for nf in (False, True)]
    if "holds" in (per[0].status, per[1].status):
        return holds()
    if all(r.status == "violated" for r in per):
        return per[0]
    return next(r for r in per if r.status != "violated")


def snarimax(R, p, q, exog, k, arbitrary, mangle=False):
    """prediction = regressor(exogenous, last q errors, last p targets), missing entries 0"""
    nsteps = max(p, q) + (1 if arbitrary else 2)
    ys = [vec(f"y{t}", k) for t in range(nsteps)]
    xs = [Arr([sym(f"x{t}_0"), sym(f"x{t}_1")]) for t in range(nsteps)]
    n = k or 1

    def regressor(I, a, kw, s):
        fs = [I.term(x, s) for x in I.iter_items(a[0], s)]
        return Arr([mk("app", f"REG{i}", *fs) for i in range(n)])

    def setup(I, st, args, kw, cfg):
        I.scalars = I.scalar_items = I.concrete = True
        return args, kw, {"p": const(p), "q": const(q), "regressor": Py("regressor", regressor)}

    def run(i, store):
        return run_module(R, SNX, {}, [ys[i]] + ([xs[i]] if exog else []), store=store, setup=setup)

    first, init, states = int_states(lambda x, store: run(0, store), 0, 64)
    rs = []
    for st0 in (states if arbitrary else [init]):
        steps = run_chain(lambda i, store: run(i, store), st0, list(range(nsteps)))
        preds = []
        for s in steps:
            y_pred = s.I.unpack(s.out, 2, s.st)[0]
            preds.append([t for _, t in leaves_of(y_pred, s.I, s.st)])
        for t in range(nsteps - 1 if arbitrary else 0, nsteps):
            f = [fill0(c) for c in (xs[t].items if exog else ())]
            for i in range(q, 0, -1):
                f += [fill0(mk("sub", comps(ys[t - i])[c], preds[t - i][c])) if t - i >= 0 else ZERO for c in range(n)]
            for i in range(p - 1, -1, -1):
                f += [fill0(comps(ys[t - i])[c]) if t - i >= 0 else ZERO for c in range(n)]
            if mangle:
                f.reverse()
            want = [mk("app", f"REG{c}", *f) for c in range(n)]
            s = steps[t]
            rs.append(eq_struct(R, s.I, s.st, s.I.unpack(s.out, 2, s.st)[0], want if k is not None else want[0], (), f"prediction {t + 1}"))
            if rs[-1].status != "holds":
                return rs[-1]
    return worst(rs)


FSNX = "wax.flax.modules.snarimax.SNARIMAX"


def flax_snarimax(R, lx, ly, with_y, k, nout, arbitrary, mangle=False):
    """prediction = regressor([last lags_x inputs, last lags_y values of y - x, current input]), oldest first; a non-finite result counts as 0"""
    nsteps = max(lx, ly) + (1 if arbitrary else 2)
    xs = [vec(f"x{t}", k) for t in range(nsteps)]
    ys = [vec(f"y{t}", k) for t in range(nsteps)]
    n = k or 1

    def regressor(I, a, kw, s):
        rows = list(I.iter_items(a[0], s))
        if len(rows) != 1:
            raise GiveUp("features of more than one row")
        fs = [I.term(x, s) for x in I.iter_items(rows[0], s)]
        return Arr([Arr([mk("app", f"REG{i}", *fs) for i in range(nout)])])

    def setup(I, st, args, kw, cfg):
        I.scalars = I.scalar_items = I.concrete = True
        return args, kw, {"lags_x": const(lx), "lags_y": const(ly), "regressor": Py("regressor", regressor)}

    def run(i, store):
        return run_module(R, FSNX, {}, [xs[i]] + ([ys[i]] if with_y else []), store=store, setup=setup)

    first, init, states = int_states(lambda x, store: run(0, store), 0, 64)
    rs = []
    for st0 in (states if arbitrary else [init]):
        steps = run_chain(lambda i, store: run(i, store), st0, list(range(nsteps)))
        for t in range(nsteps - 1 if arbitrary else 0, nsteps):
            f = []
            for i in range(lx - 1, -1, -1):
                f += [comps(xs[t - i])[c] if t - i >= 0 else ZERO for c in range(n)]
            if with_y:
                for i in range(ly - 1, -1, -1):
                    f += [mk("sub", comps(ys[t - i])[c], comps(xs[t - i])[c]) if t - i >= 0 else ZERO for c in range(n)]
            f += comps(xs[t])
            if mangle:
                f.reverse()
            want = [fill0(mk("app", f"REG{c}", *f)) for c in range(nout)]
            s = steps[t]
            rs.append(eq_struct(R, s.I, s.st, s.out, want if nout > 1 else want[0], (), f"prediction {t + 1}"))
            if rs[-1].status != "holds":
                return rs[-1]
    return worst(rs)


@prop("W15")
def arma_rule(R):
    R.total = True
    R.rule("arma", "y_t = eps_t + sum of AR coefficients times the previous outputs + sum of MA coefficients times the previous inputs (each coefficient on one fixed lag; zero before the start), component by component; a non-finite result counts as 0")
    R.rule("features", "SNARIMAX predicts regressor([exogenous, last q errors, last p targets]) with missing entries 0; the error of a call is its target minus its prediction")
    for d in DOTTED:
        w = where_(R, d)
        for p, q in ((1, 1), (2, 1), (1, 2), (3, 2)):
            for k in (None, 2):
                if k and p + q > 3:
                    continue
                for arb in (False, True):
                    R.ob("arma", f"{d}[p={p},q={q},{'vector' if k else 'scalar'},from {'any state' if arb else 'the start'}]", lambda: arma_seq(R, d, p, q, k, arb), w)
        for p, q in ((1, 0), (0, 1), (0, 2)) if d == DOTTED[1] else ((1, 1),):
            for k in (None, 2):
                for arb in (False, True):
                    if p + q > 1 and (k or arb):
                        continue
                    R.ob("arma", f"{d}[p={p},q={q},{'vector' if k else 'scalar'},missing inputs,from {'any state' if arb else 'the start'}]", lambda: arma_seq(R, d, p, q, k, arb, nan=True), w)
        for p, q in ((1, 1), (2, 1)):
            R.ob("arma", f"{d}[p={p},q={q},scalar,integer inputs,from the start]", lambda: arma_seq(R, d, p, q, None, False, dtype="int32"), w)
        R.control(lambda: arma_seq(R, d, 1, 1, None, False, shift=-1))
    w = where_(R, SNX)
    for p, q, ex, k in ((1, 0, False, None), (3, 0, False, None), (2, 0, True, None), (1, 1, False, None), (2, 2, True, None), (1, 1, True, 2)):
        for arb in (False, True):
            R.ob("features", f"{SNX}[p={p},q={q},{'exogenous' if ex else 'no exogenous'},{'vector' if k else 'scalar'},from {'any state' if arb else 'the start'}]", lambda: snarimax(R, p, q, ex, k, arb), w)
    R.control(lambda: snarimax(R, 2, 0, False, None, False, True))
    w = where_(R, FSNX)
    R.missing = frozenset({"REG0", "REG1"})
    R.rule("flax-features", "Flax SNARIMAX predicts regressor([last lags_x inputs, last lags_y differences y - x when y is given, current input]), oldest first with 0 before the start; a non-finite prediction counts as 0")
    for lx, ly, wy, k, nout in ((1, 1, True, None, 1), (2, 1, True, None, 1), (1, 3, True, None, 2), (0, 2, True, None, 1), (2, 0, True, None, 1), (3, 1, False, None, 1), (2, 2, True, 2, 2)):
        for arb in (False, True):
            R.ob("flax-features", f"{FSNX}[lags_x={lx},lags_y={ly},{'y' if wy else 'no y'},{'vector' if k else 'scalar'},{nout} outputs,from {'any state' if arb else 'the start'}]", lambda: flax_snarimax(R, lx, ly, wy, k, nout, arb), w)
    R.control(lambda: flax_snarimax(R, 2, 1, True, None, 1, False, mangle=True))
