"""Streams: causality of the synchronisation, data access, unrolling of generators.

The synchronisation code branches only on comparisons between (embedded) local times and secondary times, so running it
abstractly with concrete timestamps for every order type and symbolic values covers all data with those shapes."""
import itertools

from . import prop
from ..interp import Arr, Ext, PDict, PList
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r40_unroll import TWS

T0 = 1000   # timestamps are the constants from here on, so that they are told apart from positions
FLT, INT, TIME = Ext("dtype:jax.numpy.float32"), Ext("dtype:jax.numpy.int64"), Ext("dtype:jax.numpy.datetime64")


def hook(I, o, name, st):
    if name == "dtype":
        while isinstance(o, Arr) and o.items:
            o = o.items[0]
        if isinstance(o, T) and o.op == "num":
            return TIME if o.args[0] >= T0 else INT
        if isinstance(o, T) and o.op in ("sym", "app", "nan"):
            return FLT
    return None


FREQS = {"FREQ": 10, "FINE": 4}


def floor_(I, a, k, s):
    f = k.get("freq", a[1] if len(a) > 1 else const("d"))
    if I.pyval(f) not in FREQS:
        raise GiveUp("frequency")
    return const(I.pyval(a[0]) // FREQS[I.pyval(f)] * FREQS[I.pyval(f)])


def np_dtype(I, a, k, s):
    if isinstance(a[0], T) and a[0].op == "obj" and isinstance(a[0].args[0], str):
        return TIME if a[0].args[0] in ("datetime64[ns]", "<M8[ns]", "<M8[us]", "datetime64[us]", "M8[ns]") else Ext("dtype:" + a[0].args[0])
    return Ext("dtype:" + str(getattr(a[0], "name", a[0])))


def interp(R):
    if "xarray" not in R.p.modules:
        R.p.add_stub("xarray")
    I = Interp(R.p)
    I.concrete = I.scalar_items = I.scalars = True
    I.term_hook = hook
    I.handlers["wax.utils.get_unique_dtype"] = lambda I, a, k, s: Ext("jax.numpy." + ("int64" if hook(I, a[0], "dtype", s) is INT else "float32"))
    I.handlers["tqdm.auto.tqdm"] = lambda I, a, k, s: a[0] if a else k["iterable"]
    I.handlers["jax.numpy.dtype"] = np_dtype
    I.handlers["wax.encode.floor_datetime"] = floor_
    I.handlers["jax.device_put"] = lambda I, a, k, s: a[0]
    return I, S()


class Data:
    """an xarray dataset with concrete coordinates and symbolic values"""

    def __init__(self, times, order=None, extra=True):
        self.times, self.order, self.extra = times, order or list(times), extra

    def values(self, name, n, k):
        return [[sym(f"{name}{i}_{j}") for j in range(k)] if k else sym(f"{name}{i}") for i in range(n)]

    def variables(self):
        """{name: (time dim or None, per-step values)}"""
        out = {}
        for d in self.order:
            n = len(self.times[d])
            out["v" + d] = (d, self.values("v" + d, n, 0))
            out["m" + d] = (d, self.values("m" + d, n, 2))
            if self.extra:
                out["w" + d] = (d, [[[sym(f"w{d}{i}_{j}_{k}") for k in range(2)] for j in range(2)] for i in range(n)])
        if self.extra:
            out["c"] = (None, [sym(f"c{i}") for i in range(3)])
            out["cc"] = (None, [[sym(f"cc{i}_{j}") for j in range(2)] for i in range(3)])
            out["p"] = (None, sym("p"))
        return out

    def build(self, I, st):
        m = I.p.modules["xarray"]
        DA, DS = I.global_value(m, "DataArray"), I.global_value(m, "Dataset")
        ds = I.call(DS, [], {}, None, st)

        def arr(v):
            return Arr([arr(x) for x in v]) if isinstance(v, list) else v

        def setv(n, v, dims):
            a = I.call(DA, [arr(v)], {"dims": Tup([const(d) for d in dims])}, None, st)
            I.call(I.getattr(ds, "__setitem__", st), [const(n), a], {}, None, st)

        for d in self.order:
            setv(d, [const(T0 + t) for t in self.times[d]], [d])
        setv("attr", [sym("attr0"), sym("attr1")], ["attr"])
        for n, (d, v) in self.variables().items():
            rank = 0
            x = v
            while isinstance(x, list):
                rank, x = rank + 1, x[0]
            setv(n, v, (([d] if d else ["k"]) + ["attr", "more"])[:rank])
        return ds


def opt(o, d):
    """the option of one time dimension (given for all of them, or each)"""
    return o.get(d) if isinstance(o, dict) else o


def visible(data, local, ffill, maxlen, freq, early=False):
    """for every local step: {secondary dim: None or the list of visible positions, oldest first}"""
    out = [dict() for _ in data.times[local]]
    for d in data.order:
        if d == local:
            continue
        pend = list(range(len(data.times[d])))
        hist, prev = [], None
        ff, ml, fr = opt(ffill, d), opt(maxlen, d), opt(freq, d)
        fr = FREQS["FREQ"] if fr is True else FREQS.get(fr)
        for n, t in enumerate(data.times[local]):
            lim = t // fr * fr if fr else t
            new = [p for p in pend if (data.times[d][p] <= lim if early else data.times[d][p] < lim)]
            pend = pend[len(new):]
            hist += new
            if new:
                cur = hist[-ml:] if ml else hist[-1:]
            else:
                cur = prev if ff else None
            prev = cur
            out[n][d] = cur
    return out


def nanlike(v):
    return [nanlike(x) for x in v] if isinstance(v, list) else NAN


def required(data, local, ffill, maxlen, freq, early=False, enc=lambda n, v: v):
    vis = visible(data, local, ffill, maxlen, freq, early)
    for n in range(len(data.times[local])):
        w = {}
        for name, (d, v) in data.variables().items():
            v = enc(name, v)
            if d is None:
                w[name] = v
            elif d == local:
                w[name] = v[n]
            else:
                cur = vis[n][d] or []
                ml = opt(maxlen, d)
                if ml:
                    w[name] = [nanlike(v[0])] * (ml - len(cur)) + [v[p] for p in cur]
                else:
                    w[name] = v[cur[0]] if cur else nanlike(v[0])
        yield w


def config(I, st, data, local, ffill, maxlen, freq):
    c = {}
    sec = [d for d in data.order if d != local]
    if local:
        c["local_time"] = const(local)
    for key, o, val in (("ffills", ffill, lambda x: TRUE if x else FALSE), ("buffer_maxlen", maxlen, const), ("freqs", freq, lambda x: const("FREQ" if x is True else x))):
        given = {d: val(opt(o, d)) for d in sec if opt(o, d) or (key == "ffills" and isinstance(o, dict) and d in o)}
        if given:
            c[key] = I.alloc(st, PDict(given))
    return c


def describe(data, local, n):
    return f"times {data.times}: at local step {n} (time {data.times[local][n]})"


def trace_check(R, data, local, ffill, maxlen, freq, early=False, **more):
    I, st = interp(R)
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    inst = I.call(C, [], {**config(I, st, data, local, ffill, maxlen, freq), **{k: f(I, st) for k, f in more.items()}}, None, st)
    out = I.call(I.getattr(inst, "trace_dataset", st), [data.build(I, st)], {}, None, st)
    d, idx, xs = I.unpack(out, 3, st)
    R.saw(I)
    loc = local or data.order[0]
    r = eq_struct(R, I, st, xs, [const(i) for i in range(len(data.times[loc]))], (), "steps")
    if r.status != "holds":
        return r
    mod, _ = R.p.need("wax.stream.tree_access_data")
    acc = I.global_value(mod, "tree_access_data")
    for n, want in enumerate(required(data, loc, ffill, maxlen, freq, early)):
        got = I.call(acc, [d, idx, const(n)], {}, None, st)
        r = eq_data(R, I, st, got, want, describe(data, loc, n))
        if r.status != "holds":
            return r
    return holds()


def late_time_dim(R):
    """a variable whose time dimension is not its first one is refused or shown at the right time, never read along another dimension"""
    I, st = interp(R)
    data = Data({"L": [10, 20, 30]}, extra=False)
    ds = data.build(I, st)
    DA = I.global_value(I.p.modules["xarray"], "DataArray")
    rows = [[sym(f"t{j}_{i}") for i in range(3)] for j in range(2)]
    a = I.call(DA, [to_arr_(rows)], {"dims": Tup([const("attr"), const("L")])}, None, st)
    I.call(I.getattr(ds, "__setitem__", st), [const("late"), a], {}, None, st)
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    R.interps.append(I)
    try:
        out = I.call(I.getattr(I.call(C, [], {}, None, st), "trace_dataset", st), [ds], {}, None, st)
        d, idx, xs = I.unpack(out, 3, st)
        acc = I.global_value(R.p.need("wax.stream.tree_access_data")[0], "tree_access_data")
        got = [I.getitem(I.call(acc, [d, idx, const(n)], {}, None, st), const("late"), st) for n in range(3)]
    except AbsRaise as e:
        return holds() if e.exc else undecided("raises")
    return worst([eq_struct(R, I, st, g, [rows[0][n], rows[1][n]], (), f"variable with dims (attr, time) at local step {n}") for n, g in enumerate(got)])


def merged_values(R, maxlen, given, ffill=False):
    """merge() on streams of real data: missing observations are the given initial values of their type (else the default ones)"""
    I, st = interp(R)
    R.interps.append(I)
    data = Data({"L": [10, 20, 30], "S": [12, 14, 25]}, extra=False)
    split = I.global_value(R.p.need("wax.stream.split_dataset_from_time_dims")[0], "split_dataset_from_time_dims")
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    cfg = {**config(I, st, data, "L", ffill, maxlen, False), "trace": FALSE}
    if given:
        cfg["buffer_dtype_init_values"] = I.alloc(st, PDict({Ext("jax.numpy.float32"): const(-7), Ext("jax.numpy.int64"): const(-8)}))
    inst = I.call(C, [], cfg, None, st)
    streams = I.call(I.getattr(inst, "start_dataset_streams", st), [I.call(split, [data.build(I, st)], {}, None, st)], {}, None, st)
    got = I.iter_items(I.call(I.getattr(inst, "merge", st), [streams], {}, None, st), st)
    if got is None or any(isinstance(g, Splat) for g in got):
        return undecided("the merged stream is not a list of observations")
    if len(got) != 3:
        return violated(f"{len(got)} observations of the merged stream, required one per local time (3)")
    fill = const(-7) if given else NAN
    rs = []
    for n, (g, vis) in enumerate(zip(got, visible(data, "L", ffill, maxlen, False))):
        at = f"merged observation {n}"
        for d, vs in (("L", None), ("S", vis["S"] or [])):
            want = {}
            for name, (dim, v) in data.variables().items():
                if dim != d:
                    continue
                miss = [fill] * 2 if isinstance(v[0], list) else fill
                want[name] = v[n] if vs is None else [miss] * (maxlen - len(vs)) + [v[p] for p in vs] if maxlen else v[vs[-1]] if vs else miss
            rs.append(eq_data(R, I, st, I.getattr(I.getitem(g, const(d), st), "value", st), want, f"{at}, stream {d}"))
        rs.append(eq_struct(R, I, st, I.getattr(I.getitem(g, const("L"), st), "time", st), const(T0 + data.times["L"][n]), (), f"{at}: local time"))
    return worst(rs)


def eq_data(R, I, st, got, want, at):
    keys = set(I.get(st, got).d) if isinstance(got, Ref) else None
    if keys is not None and keys != set(want):
        return violated(f"{at}: variables {sorted(keys)}, required {sorted(want)}")
    for name, w in want.items():
        r = eq_struct(R, I, st, I.getitem(got, const(name), st), w, (), f"{at}: variable {name}")
        if r.status != "holds":
            return r
    return holds()


def positions(n, grid):
    """all nondecreasing placements of n observations on the grid (every order type against the local times)"""
    return list(itertools.combinations_with_replacement(grid, n))


def sweep(fs):
    rs = []
    for f in fs:
        rs.append(f())
        if rs[-1].status == "violated":
            return rs[-1]
    return worst(rs)


@prop("W60")
def causality_rule(R):
    R.total = True
    R.rule("causality", "at every local time t a secondary variable shows its observations strictly before embed(t), each once and in order: the newest one (buffered: the newest maxlen), provided one is new since the previous local time or forward filling is on; else the missing value. Local variables show the step's own value, variables without time dimension are constant")
    d = "wax.stream.Stream.trace_dataset"
    w = where_(R, "wax.stream.Stream.merge")
    local, grid = [10, 20, 30], [5, 10, 15, 20, 25, 30, 35]
    deep = R.tier == "thorough"
    for ffill, maxlen in itertools.product((False, True), (0, 2, 3)):
        R.ob("causality", f"{d}[ffill={ffill},buffer={maxlen}]", lambda: sweep(
            (lambda ts=ts: trace_check(R, Data({"L": local, "S": list(ts)}, extra=False), "L", ffill, maxlen, False))
            for n in ((1, 2, 3, 4) if deep else (1, 3)) for ts in positions(n, grid)), w)
    for ffill, maxlen in ((False, 0), (True, 0), (False, 2), (True, 2)):
        R.ob("causality", f"{d}[freq,ffill={ffill},buffer={maxlen}]", lambda: sweep(
            (lambda ts=ts: trace_check(R, Data({"L": [9, 14, 17, 20, 26], "S": list(ts)}, extra=False), "L", ffill, maxlen, True))
            for n in ((1, 2, 3) if deep else (2,)) for ts in positions(n, [8, 10, 12, 18, 20, 25])), w)
    t = {"L": [10, 20, 30], "S": [5, 12, 20, 25], "B": [1, 21, 22]}
    R.ob("causality", f"{d}[several secondary streams]", lambda: sweep(
        (lambda o=o, f=f, m=m: trace_check(R, Data(t, list(o)), "L", f, m, False))
        for o in itertools.permutations("LSB") for f, m in ((False, 0), (True, 2))), w)
    for name, f, m, q in (("buffers of several lengths", False, {"S": 2, "B": 3}, False), ("one stream buffered", {"S": True}, {"B": 2}, False), ("one stream forward filled", {"S": False, "B": True}, 0, False),
                          ("one stream with a frequency", True, 0, {"S": "FREQ"}), ("two frequencies", False, 2, {"S": "FINE", "B": "FREQ"}), ("everything per stream", {"S": True}, {"B": 2}, {"B": "FINE"})):
        R.ob("causality", f"{d}[{name}]", lambda: sweep((lambda x=x: trace_check(R, Data(x, list("SLB"), extra=False), "L", f, m, q)) for x in (t, {"L": [10, 21, 33], "S": [3, 8, 9, 22], "B": [19, 20, 20, 31]})), w)
    for key in ("verbose", "pbar"):
        for kind in ("on", "one stream", "local stream"):
            val = (lambda I, st: TRUE) if kind == "on" else (lambda I, st, n="S" if kind == "one stream" else "L": I.alloc(st, PList([const(n)])))
            R.ob("causality", f"{d}[{key} {kind}]", lambda: sweep((lambda f=f, m=m: trace_check(R, Data(t, list("SLB"), extra=False), "L", f, m, False, **{key: val})) for f, m in ((False, 0), (True, 2))), w)
    R.ob("causality", f"{d}[single timeline]", lambda: sweep(
        (lambda l=l: trace_check(R, Data({"L": [10, 20, 30]}), l, False, 0, False)) for l in ("L", "")), w)
    R.ob("causality", f"{d}[other local time]", lambda: trace_check(R, Data(t, list("SLB")), "S", True, 0, False), w)
    R.ob("causality", f"{d}[time dimension not the first]", lambda: late_time_dim(R), where_(R, "wax.stream.get_dataset_index"))
    for m, g, f in itertools.product((0, 2, 3), (False, True), (False, True)):
        R.ob("merge", f"wax.stream.Stream.merge[buffer={m},{'given' if g else 'default'} initial values,ffill={f}]", lambda: merged_values(R, m, g, f), w)
    R.rule("merge", "merged streams of real data give one observation per local time: the local one and the visible secondary ones, missing ones as the initial value given for their type (NaN by default for floats)")
    R.ob("prepare", "wax.stream.Stream.prepare", lambda: sweep(
        (lambda f=f, m=m, s=s: prepare_check(R, Data({"L": [10, 20, 30], "S": [5, 12, 20, 25]}), "L", f, m, s)) for f, m in ((False, 0), (True, 2)) for s in (False, True)), where_(R, "wax.stream.Stream.prepare"))
    for x64 in (False, True):
        R.ob("prepare", f"wax.stream.Stream.prepare[64-bit types {'enabled' if x64 else 'not enabled'}]", lambda: prepare_types(R, x64), where_(R, "wax.stream.Stream.prepare"))
    R.rule("prepare", "the prepared function unrolls the module over the synchronised dataset, encoded by the given encoders, one call per local step (the first one only for init when skip_first); double and 64-bit integer data become their 32-bit types when 64-bit types are not enabled, all other data keep their values and types")
    R.control(lambda: trace_check(R, Data({"L": local, "S": [5, 12, 20, 25]}), "L", False, 0, False, True))


KINDS = {"v": "float64", "m": "int64", "w": "float32", "c": "int32", "cc": "bool_", "p": "uint32"}
NARROW = {"float64": "float32", "int64": "int32"}


def kind_of(name):
    return KINDS.get(name.rstrip("LSB0123456789_"))


def conv(I, to, x):
    """an element converted to a type"""
    if x.op != "num":
        return mk("app", "AS_" + to.upper(), x)
    v = I.models.wrap_int(to, int(x.args[0])) if x.args[0].denominator == 1 else None
    return x if v is None else const(v)


def wide_hook(I, o, name, st):
    """attributes of data of several types (the type of a value is told by its name)"""
    if name == "dtype":
        while isinstance(o, Arr) and o.items:
            o = o.items[0]
        if isinstance(o, T) and o.op == "app" and str(o.args[0]).startswith("AS_"):
            return Ext("dtype:jax.numpy." + o.args[0][3:].lower())
        if isinstance(o, T) and o.op == "sym" and kind_of(o.args[0]):
            return Ext("dtype:jax.numpy." + kind_of(o.args[0]))
    return hook(I, o, name, st)


def prepare_types(R, x64):
    """without 64-bit support double and 64-bit integer data are converted to their 32-bit types, all other data are kept"""
    I, st = interp(R)
    I.term_hook = wide_hook
    I.cast_hook = lambda to, x: conv(I, to, x)
    get = lambda I2, a, k, s: (TRUE if x64 else FALSE) if I2.is_const(a[1]) and I2.pyval(a[1]) == "jax_enable_x64" else I2.models.b_getattr(I2, a, k, s)
    I.handlers["builtins.getattr"] = get
    data = Data({"L": [10, 20, 30]})
    names = sorted(data.variables())

    def as_(n, v):
        if isinstance(v, list):
            return [as_(n, x) for x in v]
        to = None if x64 else NARROW.get(kind_of(n))
        return mk("app", "AS_" + to.upper(), v) if to else v

    out = prepared(R, I, st, data, config(I, st, data, "L", False, 0, False), names, None, False)
    want = [mk("app", "MOD", *[I.term(to_arr_(w[n]), st) for n in names]) for w in required(data, "L", False, 0, False, enc=as_)]
    return eq_struct(R, I, st, out, want, (), "outputs of the unrolled module")


def prepare_check(R, data, local, ffill, maxlen, skip, mangle=False):
    I, st = interp(R)

    def enc_value(v):
        if isinstance(v, Arr):
            return Arr([enc_value(x) for x in v.items])
        return mk("app", "ENC", v)

    E = I.global_value(R.p.need("wax.encode.Encoder")[0], "Encoder")
    enc = I.call(E, [Py("encode", lambda I2, a, k, s: enc_value(a[0])), Py("decode", lambda I2, a, k, s: a[0])], {}, None, st)
    encoders = I.alloc(st, PDict({"vS": enc, "mL": enc}))
    y = prepared(R, I, st, data, config(I, st, data, local, ffill, maxlen, False), sorted(data.variables()), encoders, skip)

    def e(n, v):
        if n in ("vS", "mL"):
            return [e(n, x) for x in v] if isinstance(v, list) else mk("app", "ENC", v)
        return v

    def term(v):
        return mk("arr", *[term(x) for x in v]) if isinstance(v, list) else v

    want = []
    for w in required(data, local, ffill, maxlen, False, enc=e):
        want.append(mk("app", "MOD", *[I.term(to_arr_(w[n]), st) for n in sorted(w)]))
    if skip:
        want = want[1:]
    return eq_struct(R, I, st, y, want, (), "outputs of the unrolled module")


def to_arr_(v):
    return Arr([to_arr_(x) for x in v]) if isinstance(v, list) else v


def prepared(R, I, st, data, cfg, names, encoders, skip):
    """outputs of the function made by prepare() for a module that uses every variable"""
    def module(I2, a, k, s):
        return mk("app", "MOD", *[I2.term(I2.getitem(a[0], const(n), s), s) for n in names])

    def transform(I2, a, k, s):
        f = a[0]

        def init(I3, b, kw, s2):
            I3.call(f, b[1:], kw, None, s2)
            return Tup([mk("app", "INITP"), mk("app", "INITS")])

        def apply(I3, b, kw, s2):
            return Tup([I3.call(f, b[3:], kw, None, s2), mk("app", "NEXTS", I3.term(b[1], s2))])

        return Tup([Py("init", init), Py("apply", apply)], "namedtuple", ("init", "apply"), TWS)

    I.handlers["haiku.transform_with_state"] = transform
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    inst = I.call(C, [], cfg, None, st)
    kw = {"skip_first": TRUE if skip else FALSE}
    if encoders is not None:
        kw["encoders"] = encoders
    out = I.call(I.getattr(inst, "prepare", st), [data.build(I, st), Py("module", module)], kw, None, st)
    fun, xs = I.unpack(out, 2, st)
    res = I.call(I.getattr(fun, "apply", st), [mk("app", "P"), mk("app", "S"), NONE, xs], {}, None, st)
    R.saw(I)
    return I.unpack(res, 2, st)[0]
