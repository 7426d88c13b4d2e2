"""Codecs: encode/decode are inverse bijections between 64-bit values and pairs of 32-bit words, and order-preserving.

Integer arithmetic is decided by bit provenance: each bit of a result is a constant or a bit of the 64-bit input."""
import itertools

from . import prop
from ..bits import evaluate, int64_input, num_bits, show_bits, wrap
from ..interp import Arr, Ext, PDict, PList
from ..judge import *
from ..terms import *
from .r10_windows import where_

X = sym("x")
NS = ("datetime64[ns]", "M8[ns]", "<M8[ns]", "dtype:datetime64[ns]")
TICK = mk("cast", "M8[ns]", X)          # the date whose nanosecond count is x
WORDS = 2
DAY = 86400 * 10**9


def norm(n):
    return "M8[ns]" if n in NS else n


def hook(I, o, name, st):
    if name == "value" and isinstance(o, T) and (o == X or o.op == "num"):
        return o
    if name == "to_pydatetime" and isinstance(o, T):
        return Py(name, lambda I2, a, k, s: o)
    return None


def date_of(I, a, k, s):
    u = I.pyval(k.get("unit", a[1] if len(a) > 1 else const("ns")))
    return I.lift(lambda x: mk("cast", f"M8[{u}]", x), a[0], st=s)


def interp(R):
    I = Interp(R.p)
    I.exact_casts = I.scalars = I.scalar_items = I.concrete = True
    I.term_hook = hook
    for n in ("pandas.to_datetime", "pandas.Timestamp", "jax.numpy.datetime64"):
        I.handlers[n] = date_of
    I.handlers["sklearn.preprocessing.LabelEncoder"] = label_encoder
    return I


def label_encoder(I, a, k, s):
    fitted = []

    def fit(I2, b, kw, s2):
        fitted.append(flat(b[0]))
        return enc

    def each(f):
        def g(I2, b, kw, s2):
            v = b[0]
            if not isinstance(v, Arr) or any(isinstance(x, Arr) for x in v.items):
                raise GiveUp("labels that are not one-dimensional")
            if not fitted:
                raise GiveUp("label encoder is not fitted")
            return Arr([mk("app", f, x, mk("arr", *fitted[-1])) for x in v.items])
        return g

    def inv(I2, b, kw, s2):
        v = b[0]
        if not isinstance(v, Arr):
            raise GiveUp("labels")
        return Arr([x.args[1] if isinstance(x, T) and x.op == "app" and x.args[0] == "LABEL" and x.args[2] == mk("arr", *fitted[-1]) else mk("app", "UNLABEL", x) for x in v.items])

    def fit_transform(I2, b, kw, s2):
        fit(I2, b, kw, s2)
        return each("LABEL")(I2, b, kw, s2)

    enc = Tup([Py("fit", fit), Py("transform", each("LABEL")), Py("inverse_transform", inv), Py("fit_transform", fit_transform)], "namedtuple", ("fit", "transform", "inverse_transform", "fit_transform"))
    return enc


def flat(v):
    return [x for y in v.items for x in flat(y)] if isinstance(v, Arr) else [v]


def strip(t, R, unit_bad):
    """remove date casts of nanosecond unit; another unit than ns is recorded"""
    if isinstance(t, T):
        if t.op == "cast" and isinstance(t.args[0], str) and ("M8" in t.args[0] or "datetime64" in t.args[0]):
            if norm(t.args[0]) != "M8[ns]":
                unit_bad.append(t.args[0])
            return strip(t.args[1], R, unit_bad)
        return mk(t.op, *[strip(a, R, unit_bad) if isinstance(a, T) else a for a in t.args]) if t.args else t
    return t


def bits_of(v, I, st):
    bad = []
    t = strip(I.term(v, st), None, bad)
    return evaluate(t, {X: int64_input()})[0], bad


def eq_bits(label, got, want, width=64):
    for i in range(width):
        if got[i] != want[i]:
            return violated(f"{label}: {show_bits(got)}; required {show_bits(want)}")
    return holds()


def words():
    x = int64_input()[0]
    return [wrap(x[32:] + [x[-1]] * 32, 32, False), wrap(x, 32, False)]


def code_check(R, f, arg=X, swap=False):
    I, st = interp(R), S()
    s = run_function(R, f, [arg], I=I, st=st)
    out = I.unpack(s.out, WORDS, st)
    want = words()
    if swap:
        want.reverse()
    for i, (o, w) in enumerate(zip(out, want)):
        b, bad = bits_of(o, I, st)
        r = eq_bits(f"word {i} of the code of x", b, w, 32)
        if r.status != "holds":
            return r
        if bad:
            return violated(f"the date is counted in {bad[0]} before it is encoded, required nanoseconds")
    return holds()


def round_trip(R, e, d, arg, kind, call=None):
    I, st = interp(R), S()
    s = run_function(R, e, [arg], I=I, st=st)
    s = run_function(R, d, [s.out], I=I, st=st)
    return decoded(R, I, st, s.out, kind)


def decoded(R, I, st, v, kind):
    t = I.term(v, st)
    # the outermost operation turns the integer into the date type
    bad = []
    b = None
    chain = []
    while isinstance(t, T) and t.op in ("cast", "app", "call", "meth"):
        n = t.args[0]
        if t.op == "cast" and isinstance(n, str) and n not in ("datetime64[ns]",) and "M8" not in n and "datetime" not in n:
            break
        chain.append(n if isinstance(n, str) else str(n))
        if t.op == "cast" and norm(n) != "M8[ns]":
            bad.append(n)
        nxt = [a for a in t.args[1:] if isinstance(a, T)]
        if len(nxt) != 1:
            raise GiveUp(f"conversion {t.op} {n}")
        t = nxt[0]
    b, bad2 = bits_of(t, I, st)
    r = eq_bits("decode(encode(x))", b, int64_input()[0])
    if r.status != "holds":
        return r
    bad += bad2
    if bad:
        return violated(f"the decoded count is read in {bad[0]}, required nanoseconds")
    return holds()


POINTS = (0, 1, 999, 2**31, 2**32 - 1, 2**32 + 1, 1583020812345678901, -1, -999, -(2**32), -1583020812345678901, 2**62 + 99, -(2**62) + 17)


def at_points(R, symbolic, at):
    """the bit-level verdict; where it is undecided, constant folding at representative values may still refute"""
    try:
        r = symbolic()
        why = r
    except GiveUp as e:
        r, why = None, e
    if r is not None and r.status != "undecided":
        return r
    for v in POINTS:
        R.cases += 1
        q = at(v)
        if q.status == "violated":
            return q
    if r is None:
        raise why
    return r


def plain(I, st, v):
    t = fold(I, I.term(v, st))
    while t.op == "cast":
        t = t.args[1]
    return int(t.args[0]) if t.op == "num" else None


def code_at(R, f, arg, v):
    I, st = interp(R), S()
    s = run_function(R, f, [subst(arg, {X: const(v)})], I=I, st=st)
    got = [plain(I, st, o) for o in I.unpack(s.out, WORDS, st)]
    want = [(v >> 32) % 2**32, v % 2**32]
    for i, (g, w) in enumerate(zip(got, want)):
        if g is not None and g % 2**32 != w:
            return violated(f"word {i} of the code of {v} is {g}, required {w}")
    return holds()


def trip_at(R, e, d, arg, v):
    I, st = interp(R), S()
    s = run_function(R, e, [subst(arg, {X: const(v)})], I=I, st=st)
    s = run_function(R, d, [s.out], I=I, st=st)
    g = plain(I, st, s.out)
    return holds() if g is None or g % 2**64 == v % 2**64 else violated(f"decode(encode({v})) is {g}")


def less_check(R, wrong=False):
    """order types: high words over representatives of every sign combination, low words over 0..2^32-1"""
    hs = [0, 1, 5, 2**31 - 1, 2**31, 2**31 + 7, 2**32 - 1]
    ls = [0, 3, 2**31, 2**32 - 1]
    und = None
    if not wrong:
        hs, ls = (hs, ls) if R.tier == "thorough" else ([0, 1, 2**31 - 1, 2**31, 2**32 - 1], [0, 3, 2**31, 2**32 - 1])
    sgn = lambda h: h - 2**32 if h >= 2**31 else h
    for h1, h2, l1, l2 in itertools.product(hs, hs, ls, ls):
        I, st = interp(R), S()
        u = lambda v: mk("cast", "uint32", const(v))
        s = run_function(R, "wax.encode.less", [Arr([u(h1), u(l1)]), Arr([u(h2), u(l2)])], I=I, st=st)
        want = (sgn(h1), l1) < (sgn(h2), l2)
        if wrong:
            want = (h1, l1) < (h2, l2)
        R.cases += 1
        t = I.term(s.out, st)
        if t.op == "cast":
            t = t.args[-1]
        if t in (TRUE, FALSE):
            if (t == TRUE) != want:
                return violated(f"less on the codes with words ({h1}, {l1}) and ({h2}, {l2}) is {t == TRUE}, required {want}")
        else:
            und = und or undecided(f"less on words ({h1},{l1}), ({h2},{l2}) is {t}")
    return und or holds()


def elementwise(R, name, swap=False):
    """encoder(values): encode stacks the codes, decode gives the values back, in order"""
    I, st = interp(R), S()
    xs = [sym(f"x{i}") for i in range(3)]
    vals = Arr([mk("cast", "M8[ns]", x) for x in xs])
    enc = run_function(R, f"wax.encode.{name}", [vals], I=I, st=st).out
    code = I.call(I.getattr(enc, "encode", st), [vals], {}, None, st)
    rows = I.unpack(code, 3, st)
    for i, row in enumerate(rows):
        for j, (o, w) in enumerate(zip(I.unpack(row, WORDS, st), words())):
            t = strip(I.term(o, st), R, bad := [])
            k = xs[2 - i] if swap else xs[i]
            if not uses_only(t, k):
                return violated(f"code {i} depends on {t}, required only value {i}")
            b, _ = evaluate(t, {k: int64_input()})
            r = eq_bits(f"word {j} of code {i}", b, w, 32)
            if r.status != "holds":
                return r
            if bad:
                return violated(f"dates counted in {bad[0]}")
    back = I.call(I.getattr(enc, "decode", st), [code], {}, None, st)
    for i, v in enumerate(I.unpack(back, 3, st)):
        t = I.term(v, st)
        if not uses_only(t, xs[i]):
            return violated(f"decoded value {i} is {t}, required value {i}")
        t = subst(t, {xs[i]: X})
        r = decoded(R, I, st, t, "date")
        if r.status != "holds":
            return r
    return holds()


def syms_of(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, T):
        if t.op == "sym":
            acc.add(t)
        for a in t.args:
            syms_of(a, acc)
    return acc


def uses_only(t, x):
    return syms_of(t) == {x}


def labels(R, shape, order="C"):
    I, st = interp(R), S()
    I.memory_order = order
    n = 1
    for s in shape:
        n *= s
    xs = [sym(f"s{i}") for i in range(n)]
    vals = shaped(xs, shape)
    enc = run_function(R, "wax.encode.string_encoder", [vals], I=I, st=st).out
    code = I.call(I.getattr(enc, "encode", st), [vals], {}, None, st)
    want = [mk("app", "LABEL", x, mk("arr", *xs)) for x in xs]
    r = eq_struct(R, I, st, code, want, (), "code")
    if r.status != "holds":
        return r
    back = I.call(I.getattr(enc, "decode", st), [code], {}, None, st)
    return eq_struct(R, I, st, back, unarr(vals), (), "decoded values")


def shaped(xs, shape):
    if len(shape) == 1:
        return Arr(xs)
    n = len(xs) // shape[0]
    return Arr([shaped(xs[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])])


def unarr(v):
    return [unarr(x) for x in v.items] if isinstance(v, Arr) else v


def datasets(R, which):
    I, st = interp(R), S()
    E = I.global_value(R.p.need("wax.encode.Encoder")[0], "Encoder")
    mkenc = lambda n: I.call(E, [Py("e", lambda I2, a, k, s: mk("app", f"ENC{n}", I2.term(a[0], s))), Py("d", lambda I2, a, k, s: mk("app", f"DEC{n}", I2.term(a[0], s)))], {}, None, st)
    encs = I.alloc(st, PDict({"a": mkenc("A"), "c": mkenc("C"), "zz": mkenc("Z")}))
    data = I.alloc(st, PDict({n: sym("v" + n) for n in "abc"}))
    out = run_function(R, f"wax.encode.{which}_dataset", [encs, data], I=I, st=st).out
    p = which[:3].upper()
    r = eq_struct(R, I, st, out, {"a": mk("app", p + "A", sym("va")), "b": sym("vb"), "c": mk("app", p + "C", sym("vc"))}, (), f"{which}d variables")
    if r.status != "holds":
        return r
    return eq_struct(R, I, st, data, {n: sym("v" + n) for n in "abc"}, (), "the given dictionary afterwards")


def fold(I, t):
    if not isinstance(t, T) or not t.args:
        return t
    a = [fold(I, x) if isinstance(x, T) else x for x in t.args]
    if t.op == "cast":
        return I.models.fold_cast(a[0], a[1])
    if t.op in ("add", "sub", "mul", "mod", "fmod", "floordiv") and len(a) == 2:
        return I.arith(t.op, *a)
    return mk(t.op, *a)


def floor_check(R, which):
    """floor(t) is the start of t's day: t - (t mod day)"""
    def run(arg):
        I, st = interp(R), S()
        if which == "floor_datetime":
            out = run_function(R, "wax.encode.floor_datetime", [mk("cast", "M8[ns]", arg)], I=I, st=st).out
            bad = []
            t = strip(I.term(out, st), R, bad)
            if bad:
                raise GiveUp(f"unit {bad[0]}")
            return I, st, t
        code = run_function(R, "wax.encode.encode_int64", [arg], I=I, st=st).out
        out = run_function(R, "wax.encode.floor_jax_datekey", [code], I=I, st=st).out
        back = run_function(R, "wax.encode.decode_int64", [out], I=I, st=st).out
        return I, st, strip(I.term(back, st), R, [])
    for v in (0, 1, DAY - 1, DAY, DAY + 1, 5 * DAY - 1, 18000 * DAY, 18000 * DAY + 3600 * 10**9, -1, -DAY, -DAY - 1, -DAY + 1, -400 * DAY - 12345, 2**40 * 1000, -(2**62) + 17, 2**62 + 99):
        I, st, t = run(const(v))
        t = fold(I, t)
        while t.op == "cast":
            t = t.args[1]
        R.cases += 1
        want = v // DAY * DAY
        if t.op != "num":
            return undecided(f"floor of {v} ns is {t}")
        if int(t.args[0]) != want:
            return violated(f"floor of {v} ns is {int(t.args[0])}, required {want} (the start of that day)")
    return holds()


@prop("W61")
def codec(R):
    R.total = True
    R.rule("code", "the code of a 64-bit integer is (its upper 32 bits, its lower 32 bits); dates are encoded by their count of nanoseconds since the epoch")
    R.rule("round trip", "decode(encode(x)) has exactly the bits of x, as a date of nanosecond unit where x is a date")
    R.rule("order", "less(encode(a), encode(b)) is a < b for all 64-bit integers, negative ones included")
    R.rule("elements", "encoders of arrays work element by element, in order, and restore the shape; dataset encoding touches exactly the listed variables")
    R.rule("day floor", "flooring gives the start of the day, also before 1970")
    W = lambda n: where_(R, "wax.encode." + n)
    pairs = (("int64", X), ("datetime64", TICK), ("timestamp", X), ("datetime", X))
    for n, a in pairs:
        R.ob("code", f"wax.encode.encode_{n}", lambda: at_points(R, lambda: code_check(R, f"wax.encode.encode_{n}", a), lambda v: code_at(R, f"wax.encode.encode_{n}", a, v)), W(f"encode_{n}"))
        R.ob("round trip", f"wax.encode.decode_{n}", lambda: at_points(R, lambda: round_trip(R, f"wax.encode.encode_{n}", f"wax.encode.decode_{n}", a, n), lambda v: trip_at(R, f"wax.encode.encode_{n}", f"wax.encode.decode_{n}", a, v)), W(f"decode_{n}"))
    R.ob("order", "wax.encode.less", lambda: less_check(R), W("less"))
    R.ob("elements", "wax.encode.datetime64_encoder", lambda: elementwise(R, "datetime64_encoder"), W("datetime64_encoder"))
    for sh, o in (((3,), "C"), ((2, 2), "C"), ((2, 3), "C"), ((2, 2), "F"), ((2, 3), "F"), ((2, 1, 2), "C")):
        R.ob("elements", f"wax.encode.string_encoder[{len(sh)}-D {sh}, {o} contiguous]", lambda: labels(R, sh, o), W("string_encoder"))
    for w in ("encode", "decode"):
        R.ob("elements", f"wax.encode.{w}_dataset", lambda: datasets(R, w), W(f"{w}_dataset"))
    for w in ("floor_datetime", "floor_jax_datekey"):
        R.ob("day floor", f"wax.encode.{w}", lambda: floor_check(R, w), W(w))
    R.control(lambda: code_check(R, "wax.encode.encode_int64", X, True))
