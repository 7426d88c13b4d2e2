"""Memory estimates of compressed buffers; Count-Min sketches."""
from fractions import Fraction

from . import prop
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r16_compressed import CB, HB, chain
from .r81_monitor import Lab

EL, CNT = 8, 4   # bytes assumed per stored element and per counter
DEF = {"ewma": {}, "quantile": {"percentiles": [.1, .25, .5, .75, .9]}, "downsample": {"factor": 2}, "sketching": {"num_hashes": 4, "num_buckets": 1024}, "none": {}}


def bytes_of(comp, L, params=None):
    """what the strategy stores: elements and counters"""
    p = params or DEF[comp]
    if comp == "ewma":
        d = {"compressed_state": EL, "count": CNT}
        return {**d, "total": EL + CNT}
    if comp == "quantile":
        b, e = EL * min(L, 1000), EL * len(p.get("percentiles", (1, 2, 3)))
        return {"buffer": b, "estimates": e, "total": b + e + CNT}
    if comp == "downsample":
        b = EL * max(1, L // p.get("factor", 2))
        return {"buffer": b, "counter": CNT, "total": b + CNT}
    if comp == "sketching":
        h = p.get("num_hashes", 4)
        s = EL * h * p.get("num_buckets", 1024)
        return {"sketch": s, "hash_params": 2 * CNT * h, "total": s + 2 * CNT * h}
    return {"buffer": EL * L, "total": EL * L}


def memory(R, comp, L, params=None, mangle=False):
    lab = Lab(R)
    o = lab.new(CB, maxlen=L, compression=comp, **({"compression_params": params} if params is not None else {}))
    want = bytes_of(comp, L, params)
    if mangle:
        want["total"] += 1
    return lab.same_tree(lab.do(o, "get_memory_usage"), {k: const(v) for k, v in want.items()}, "memory usage")


def total(R, recent, medium, long, mc, lc, mangle=False):
    lab = Lab(R)
    kw = {"medium_compression": mc} if mc else {}
    if lc:
        kw["long_compression"] = lc
    o = lab.new(HB, recent_maxlen=recent, medium_maxlen=medium, long_maxlen=long, **kw)
    m, l = bytes_of(mc or "ewma", medium)["total"], bytes_of(lc or "quantile", long)["total"]
    t = EL * recent + m + l
    want = {"recent": EL * recent, "medium": m, "long": l, "total": t + mangle, "compression_ratio": Fraction(EL * (recent + medium + long), t)}
    return lab.same_tree(lab.do(o, "get_total_memory_usage"), {k: const(v) for k, v in want.items()}, "memory usage")


def sketch(R, xs, hashes, buckets, default=False, mangle=False):
    """the output after each input: per bucket the smallest of the rows' counts"""
    ab = [(31, 17), (37, 23), (41, 29), (43, 31)]
    cfg = {"maxlen": const(10), "compression": const("sketching"), "compression_params": {"num_hashes": const(hashes), "num_buckets": const(buckets)}}
    steps = chain(R, CB, cfg, [const(x) for x in xs])
    rows = [[0] * buckets for _ in range(hashes)]
    rs = []
    for t, (x, s) in enumerate(zip(xs, steps)):
        n = int(x * 1000)
        for i in range(hashes):
            a, b = ab[i]
            rows[i][(a * n + b) % buckets] += 1 + (mangle and t == 1)
        rs.append(eq_struct(R, s.I, s.st, s.out, [const(min(r[j] for r in rows)) for j in range(buckets)], (), f"counts after {t + 1} inputs"))
    return worst(rs)


@prop("W92")
def sizes(R):
    R.total = True
    w = where_(R, CB)
    R.rule("usage", "get_memory_usage: 8 bytes per element the strategy stores (rolling buffer, percentiles, sketch, average) and 4 per counter or hash parameter, and their total")
    for c in DEF:
        for L in (1, 4, 1000, 1001, 5000):
            R.ob("usage", f"{CB}[{c},maxlen={L}]", lambda: memory(R, c, L), w)
    for c, p in (("quantile", {"percentiles": [.5]}), ("quantile", {"other": 1}), ("downsample", {"factor": 3}), ("downsample", {"factor": 9}), ("downsample", {"other": 1}), ("sketching", {"num_hashes": 2, "num_buckets": 64}), ("sketching", {"num_hashes": 3}), ("sketching", {"num_buckets": 10}), ("ewma", {"alpha": .5}), ("none", {"factor": 2})):
        R.ob("usage", f"{CB}[{c},{p}]", lambda: memory(R, c, 7, p), w)
    R.control(lambda: memory(R, "ewma", 7, None, True))
    w = where_(R, HB)
    R.rule("total", "get_total_memory_usage: 8 bytes per recent element plus the usage of the two levels, and the ratio of 8 bytes for every element of every level to that total")
    for m in DEF:
        for l in DEF:
            R.ob("total", f"{HB}[{m},{l}]", lambda: total(R, 3, 7, 20, m, l), w)
    for sz in ((100, 1000, 10000), (1, 1, 1), (10, 1500, 40)):
        R.ob("total", f"{HB}[sizes {sz}]", lambda: total(R, *sz, "quantile", "downsample"), w)
    R.ob("total", f"{HB}[default compressions]", lambda: total(R, 5, 6, 7, None, None), w)
    R.control(lambda: total(R, 5, 6, 7, "none", "none", True))
    w = where_(R, CB)
    R.rule("sketch", "each input x adds one to bucket (a_i * int(1000 x) + b_i) mod num_buckets of every row i; the output is the smallest count per bucket")
    F = Fraction
    for nm, xs, h, b in (("two rows", [F(1, 2), F(1, 2), F(-3, 4), F(5, 2), F(1, 2)], 2, 5), ("four rows", [1, 1, 2, 1, 3], 4, 4), ("one row", [F(1, 8), F(7, 8), 0, F(1, 8)], 1, 7), ("one bucket", [1, 2, 3], 3, 1)):
        R.ob("sketch", f"{CB}[sketching,{nm}]", lambda: sketch(R, xs, h, b), w)
    R.control(lambda: sketch(R, [1, 1, 2], 2, 1, mangle=True))
