"""Compressed and hierarchical buffers (Flax)."""
from fractions import Fraction

from . import prop
from ..interp import Arr, PDict, PList
from ..judge import *
from ..terms import *
from .r10_windows import where_

CB = "wax.flax.modules.compressed_buffer.CompressedBuffer"
HB = "wax.flax.modules.compressed_buffer.HierarchicalBuffer"
EW = "wax.flax.modules.ewma.EWMA"
fill = sym("fill", fixed=1)


def setup(I, st, args, kw, cfg):
    I.scalars = I.scalar_items = I.concrete = True
    if "maxlen" in cfg and cfg["maxlen"].args[0] > 40:
        I.MAX_UNROLL = I.MAX_FILL = 2000
    # dictionaries and lists among the options
    def build(v):
        if isinstance(v, dict):
            return I.alloc(st, PDict({k: build(x) for k, x in v.items()}))
        return I.alloc(st, PList([build(x) for x in v])) if isinstance(v, list) else v

    return args, kw, {k: build(v) for k, v in cfg.items()}


def chain(R, d, cfg, xs):
    run = lambda x, store: run_module(R, d, cfg, [x], store=store, setup=setup)
    first = run(xs[0], None)
    return run_chain(run, dict(first.I.slot_init), xs)


def inp(t, n=None):
    return sym(f"x{t}")


def ewma_ref(R, alpha, xs):
    """outputs of the exponential moving average module on these inputs"""
    return [s.out for s in chain(R, EW, {"alpha": const(alpha)} if alpha is not None else {}, xs)]


def same_as(R, cfg, ref, n, label, gaps=()):
    """the outputs of the buffer on x0, x1, ... (missing ones at the positions in gaps) are those listed by ref(xs)"""
    xs = [sym(f"x{t}") if t not in gaps else NAN for t in range(n)]
    steps = chain(R, CB, cfg, xs)
    want = ref(xs)
    return worst([eq_struct(R, s.I, s.st, s.out, w, (), f"{label} after {t + 1} inputs") for t, (s, w) in enumerate(zip(steps, want))])


def window(xs, t, L):
    return ([fill] * L + list(xs[: t + 1]))[-L:]


def quantiles(ps, w):
    """linear interpolation between the order statistics"""
    its = sorted(w, key=id)
    o = [mk("app", "ORDER", const(i), *its) for i in range(len(its))]
    out = []
    for p in ps:
        r = p * (len(w) - 1)
        lo = int(r)
        hi = lo if r == lo else lo + 1
        out.append(mk("add", o[lo], mk("mul", const(r - lo), mk("sub", o[hi], o[lo]))))
    return out


def down_ref(L, k):
    def ref(xs):
        out = []
        for t in range(len(xs)):
            kept = [x for i, x in enumerate(xs[: t + 1]) if i % k == 0]
            out.append(window(kept, len(kept) - 1, max(1, L // k)))
        return out

    return ref


def quant_ref(L, ps, every=10, missing=False):
    """missing: the percentiles are those of the stored values that are not missing"""
    if missing:
        return lambda xs: [quantiles(ps, [x for x in xs[: t - t % every + 1][-L:] if x is not NAN]) for t in range(len(xs))]
    return lambda xs: [quantiles(ps, window(xs, t - t % every, L)) for t in range(len(xs))]


def ewma_alpha(R, alpha):
    return lambda xs: ewma_ref(R, alpha, xs)


def level_ref(R, comp, L, every):
    """representation of a level fed with every `every`-th input"""
    def ref(xs):
        fed = xs[::every]
        if comp == "ewma":
            vals = ewma_ref(R, 0.1 if every == 5 else 0.01, fed)
        elif comp == "none":
            vals = [window(fed, t, L) for t in range(len(fed))]
        elif comp == "downsample":
            vals = down_ref(L, 2)(fed)
        else:
            vals = quant_ref(L, (Fraction(1, 10), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(9, 10)))(fed)
        return [vals[t // every] for t in range(len(xs))]

    return ref


def hier(R, medium, long, n, shift=0):
    xs = [sym(f"x{t}") for t in range(n)]
    steps = chain(R, HB, {"recent_maxlen": const(2), "medium_maxlen": const(5), "long_maxlen": const(4), "medium_compression": const(medium), "long_compression": const(long), "fill_value": fill}, xs)
    med, lng = level_ref(R, medium, 5, 5)(xs), level_ref(R, long, 4, 50)(xs)
    rs = []
    for t, s in enumerate(steps):
        want = {"recent": window(xs, t + shift, 2), "medium": med[t], "long": lng[t], "input": xs[t]}
        for k, w in want.items():
            rs.append(eq_struct(R, s.I, s.st, item(s, k), w, (), f"{k} after {t + 1} inputs"))
    return worst(rs)


def item(s, k):
    from ..models import getitem

    return getitem(s.I, s.out, const(k), s.st)


@prop("W16")
def compressed(R):
    R.total = True
    R.rule("strategy", "per strategy the output after any inputs: 'none' = the rolling buffer; 'downsample' = rolling buffer of length max(1, maxlen // factor) over every factor-th input, the first included; 'ewma' = exponential moving average of the inputs; 'quantile' = interpolated percentiles of the rolling buffer, refreshed at every tenth input from the first on")
    R.rule("levels", "the recent level sees every input, the medium level every 5th, the long level every 50th; between updates a level's stored representation is returned unchanged")
    w = where_(R, CB)
    half = (Fraction(1, 4), Fraction(1, 2), Fraction(3, 4))
    for L in (1, 3, 4):
        R.ob("strategy", f"{CB}[none,maxlen={L}]", lambda: same_as(R, {"maxlen": const(L), "compression": const("none"), "fill_value": fill}, lambda xs: [window(xs, t, L) for t in range(len(xs))], 2 * L + 2, "buffer"), w)
    for L, k in ((4, 2), (3, 2), (6, 3), (2, 3), (5, 1)):
        R.ob("strategy", f"{CB}[downsample,maxlen={L},factor={k}]", lambda: same_as(R, {"maxlen": const(L), "compression": const("downsample"), "compression_params": {"factor": const(k)}, "fill_value": fill}, down_ref(L, k), 3 * L + k + 1, "samples"), w)
    R.ob("strategy", f"{CB}[downsample,default factor]", lambda: same_as(R, {"maxlen": const(6), "compression": const("downsample"), "fill_value": fill}, down_ref(6, 2), 9, "samples"), w)
    for a in (0.1, 0.25):
        R.ob("strategy", f"{CB}[ewma,alpha={a}]", lambda: same_as(R, {"maxlen": const(6), "compression": const("ewma"), "compression_params": {"alpha": const(a)}}, ewma_alpha(R, a), 4, "average"), w)
    R.ob("strategy", f"{CB}[ewma,default alpha]", lambda: same_as(R, {"maxlen": const(6)}, ewma_alpha(R, 0.1), 3, "average"), w)
    for L in (4, 5, 12):
        R.ob("strategy", f"{CB}[quantile,maxlen={L},missing values]", lambda: same_as(R, {"maxlen": const(L), "compression": const("quantile"), "compression_params": {"percentiles": [const(p) for p in half]}, "fill_value": NAN}, quant_ref(L, half, missing=True), 22, "percentiles", gaps=(1, 8, 10)), w)
    for L in (1, 4, 5, 11):
        R.ob("strategy", f"{CB}[quantile,maxlen={L}]", lambda: same_as(R, {"maxlen": const(L), "compression": const("quantile"), "compression_params": {"percentiles": [const(p) for p in half]}, "fill_value": fill}, quant_ref(L, half), 22, "percentiles"), w)
    for L in (70, 1000, 1500):
        R.ob("strategy", f"{CB}[quantile,maxlen={L}]", lambda: same_as(R, {"maxlen": const(L), "compression": const("quantile"), "compression_params": {"percentiles": [const(p) for p in (0, 1)]}, "fill_value": fill}, quant_ref(min(L, 1000), (0, 1)), 1, "percentiles"), w)
    R.control(lambda: same_as(R, {"maxlen": const(4), "compression": const("downsample"), "fill_value": fill}, down_ref(4, 3), 6, "samples"))
    R.control(lambda: same_as(R, {"maxlen": const(4), "compression": const("quantile"), "compression_params": {"percentiles": [const(p) for p in half]}, "fill_value": fill}, quant_ref(4, half, 5), 8, "percentiles"))
    w = where_(R, HB)
    for m, l, n in (("ewma", "none", 52), ("none", "ewma", 52), ("downsample", "quantile", 52), ("quantile", "downsample", 52)):
        R.ob("levels", f"{HB}[medium={m},long={l}]", lambda: hier(R, m, l, n), w)
    R.control(lambda: hier(R, "none", "none", 7, 1))
