"""Stream plumbing: replay of data sets as streams, collection of stream outputs, access with missing values."""
import itertools

from . import prop
from ..interp import Arr, Ext, PDict, PList
from ..judge import *
from ..terms import *
from . import r60_stream as r60
from .r10_windows import where_

DTYPES = {"float32": NAN, "float64": NAN, "int64": const(-99999), "int32": const(-99999), "uint64": ZERO, "uint32": ZERO, "bool_": FALSE}


def collect(R, n, skip, pbar, wrong=False):
    """unroll_stream: every leaf stacked over the observations, in order"""
    I, st = r60.interp(R)
    I.handlers["tqdm.auto.tqdm"] = lambda I2, a, k, s: a[0]
    obs = [Tup([sym(f"x{i}"), I.alloc(st, PDict({"u": sym(f"u{i}"), "v": Arr([sym(f"v{i}_0"), sym(f"v{i}_1")])}))]) for i in range(n)]
    gen = I.alloc(st, PList(obs))
    out = run_function(R, "wax.stream.unroll_stream", [gen], {"skip_first": TRUE if skip else FALSE, "pbar": TRUE if pbar else FALSE}, I=I, st=st).out
    idx = range(1 if skip or wrong else 0, n)
    return eq_struct(R, I, st, out, ([sym(f"x{i}") for i in idx], {"u": [sym(f"u{i}") for i in idx], "v": [[sym(f"v{i}_0"), sym(f"v{i}_1")] for i in idx]}), (), "collected outputs")


def replay(R, n, trace, explicit, several=False):
    """a data set becomes a stream that shows its first observation (for initialisation) and then all, in order"""
    I, st = r60.interp(R)
    R.interps.append(I)
    data = r60.Data({"L": [10, 20, 30, 40][:n]} if not several else {"L": [10, 20, 30][:n], "S": [5, 15]}, extra=False)
    ds = data.build(I, st)
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    inst = I.call(C, [], {"trace": TRUE if trace else FALSE}, None, st)
    if several:
        split = I.global_value(R.p.need("wax.stream.split_dataset_from_time_dims")[0], "split_dataset_from_time_dims")
        d = I.call(split, [ds], {}, None, st)
        streams = I.call(I.getattr(inst, "start_dataset_streams", st), [d], {}, None, st)
        keys = set(I.get(st, streams).d)
        if keys != {"L", "S"}:
            return violated(f"streams for {sorted(keys)}, required for every time dimension")
        todo = [(dim, I.getitem(streams, const(dim), st)) for dim in "LS"]
    else:
        todo = [("L", I.call(I.getattr(inst, "start_dataset_stream", st), [ds], {"time_dim": const("L")} if explicit else {}, None, st))]
    for dim, g in todo:
        got = I.iter_items(g, st)
        if got is None:
            return undecided("the stream is not a list of observations")
        times = data.times[dim]
        order = [0] + list(range(len(times)))
        if len(got) != len(order):
            return violated(f"stream {dim} has {len(got)} observations, required the first one and then all {len(times)}")
        vs = {k: v for k, (d, v) in data.variables().items() if d == dim}
        for k, (o, i) in enumerate(zip(got, order)):
            r = eq_struct(R, I, st, I.getattr(o, "time", st), const(r60.T0 + times[i]), (), f"time of observation {k} of stream {dim}")
            if r.status != "holds":
                return r
            want = {n: (const(i) if trace else v[i]) for n, v in vs.items()}
            r = r60.eq_data(R, I, st, I.getattr(o, "value", st), want, f"observation {k} of stream {dim}")
            if r.status != "holds":
                return r
    return holds()


def sentinel(R, dtype, buffered):
    """a missing observation reads as the sentinel of the variable's type"""
    I, st = r60.interp(R)
    R.interps.append(I)
    ty = Ext("dtype:jax.numpy." + dtype)

    def hook(I2, o, name, s):
        if name == "dtype":
            while isinstance(o, Arr) and o.items:
                o = o.items[0]
            return ty if isinstance(o, T) and o.op == "sym" else r60.INT
        return None

    I.term_hook = hook
    acc = I.global_value(R.p.need("wax.stream.tree_access_data")[0], "tree_access_data")
    x = Arr([sym("a0"), sym("a1"), sym("a2")])
    m = Arr([Arr([sym(f"m{i}_{j}") for j in range(2)]) for i in range(3)])
    miss = const(-99999)
    rows = [Arr([miss, const(1)]), Arr([miss, miss]), Arr([const(2), const(0)])] if buffered else [miss, const(2), const(0)]
    data = I.alloc(st, PDict({"x": x, "m": m}))
    index = I.alloc(st, PDict({"x": Arr(rows), "m": Arr(rows)}))
    fill = DTYPES[dtype]
    for n in range(3):
        got = I.call(acc, [data, index, const(n)], {}, None, st)

        def want(src, w):
            def one(i):
                return (src.items[int(i.args[0])] if i != miss else w)
            return [one(i) for i in rows[n].items] if buffered else one(rows[n])
        r = r60.eq_data(R, I, st, got, {"x": want(x, fill), "m": plain(want(m, Arr([fill, fill])))}, f"step {n} with {'buffered ' if buffered else ''}positions {rows[n]} of type {dtype}")
        if r.status != "holds":
            return r
    return holds()


def plain(v):
    if isinstance(v, Arr):
        return [plain(x) for x in v.items]
    return [plain(x) for x in v] if isinstance(v, list) else v


def local_time(R, n, given):
    I, st = r60.interp(R)
    R.interps.append(I)
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    inst = I.call(C, [], {"local_time": const("B")} if given else {}, None, st)
    d = I.alloc(st, PDict({c: NONE for c in "ABC"[:n]}))
    f = I.getattr(inst, "get_local_time", st)
    if n > 1 and not given:
        try:
            out = I.call(f, [d], {}, None, st)
        except AbsRaise as e:
            return holds() if "ValueError" in str(e.exc) else undecided(f"raises {e.exc}")
        return violated(f"the local time is {out} although several time dimensions exist and none was chosen; required ValueError")
    out = I.call(f, [d], {}, None, st)
    return eq_struct(R, I, st, out, const("B" if given else "A"), (), "local time")


def split(R, two):
    """variables are grouped by their time dimension; a variable with two of them is refused"""
    I, st = r60.interp(R)
    R.interps.append(I)
    I.any_pop = two
    data = r60.Data({"L": [10, 20], "S": [5, 15]})
    ds = data.build(I, st)
    if two:
        DA = I.global_value(I.p.modules["xarray"], "DataArray")
        a = I.call(DA, [Arr([Arr([sym(f"q{i}{j}") for j in range(2)]) for i in range(2)])], {"dims": Tup([const("L"), const("S")])}, None, st)
        I.call(I.getattr(ds, "__setitem__", st), [const("q"), a], {}, None, st)
    f = I.global_value(R.p.need("wax.stream.split_dataset_from_time_dims")[0], "split_dataset_from_time_dims")
    try:
        out = I.call(f, [ds], {}, None, st)
    except AbsRaise as e:
        return holds() if two else violated(f"raises {e.exc}")
    if two:
        return violated("a variable with two time dimensions is accepted, required: refused")
    keys = set(I.get(st, out).d)
    if keys != {"L", "S"}:
        return violated(f"groups {sorted(keys)}, required one per time dimension")
    for d in "LS":
        g = I.getitem(out, const(d), st)
        got = {I.pyval(x) for x in I.iter_items(I.call(I.getattr(g, "keys", st), [], {}, None, st), st)}
        want = {n for n, (dim, v) in data.variables().items() if dim == d}
        if got != want:
            return violated(f"variables of time dimension {d}: {sorted(got)}, required {sorted(want)}")
    return holds()


def checked(R, faithful):
    """with check the schema is refused exactly if an encoder does not decode to what was encoded"""
    I, st = r60.interp(R)
    R.interps.append(I)
    data = r60.Data({"L": [10, 20, 30]}, extra=False)
    ds = data.build(I, st)
    plus = lambda v, n: Arr([mk("add", x, const(n)) for x in v.items])

    def decode(I2, a, k, s):
        v = plus(a[0], -1)
        return v if faithful else Arr(list(v.items[:-1]) + [mk("add", v.items[-1], ONE)])

    enc = Tup([Py("encode", lambda I2, a, k, s: plus(a[0], 1)), Py("decode", decode)], "namedtuple", ("encode", "decode"))
    I.handlers["wax.encode.datetime64_encoder"] = lambda I2, a, k, s: enc
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    try:
        I.call(I.getattr(I.call(C, [], {}, None, st), "get_dataset_schema", st), [ds], {"check": TRUE}, None, st)
    except AbsRaise as e:
        return violated(f"raises {e.exc} although the encoder decodes to what was encoded") if faithful else holds()
    return holds() if faithful else violated("an encoder that changes one of the times passes the check")


def schema(R, check):
    """dates and labels (variables and coordinates) get an encoder, other variables none"""
    I, st = r60.interp(R)
    R.interps.append(I)
    LAB = Ext("dtype:builtins.str")
    base = r60.hook

    def hook(I2, o, name, s):
        v = o
        while isinstance(v, Arr) and v.items:
            v = v.items[0]
        if name == "dtype" and isinstance(v, T) and v.op == "sym" and str(v.args[0]).startswith("label"):
            return LAB
        return base(I2, o, name, s)

    I.term_hook = hook
    kinds = {}

    def enc(kind):
        def make(I2, a, k, s):
            kinds[I2.term(a[0], s)] = kind
            return Tup([Py("encode", lambda I3, b, kw, s3: mk("app", "ENC", I3.term(b[0], s3))), Py("decode", lambda I3, b, kw, s3: mk("app", "DEC", I3.term(b[0], s3)))], "namedtuple", ("encode", "decode"))
        return make

    I.handlers["wax.encode.datetime64_encoder"] = enc("date")
    I.handlers["wax.encode.string_encoder"] = enc("label")
    data = r60.Data({"L": [10, 20]}, extra=False)
    ds = data.build(I, st)
    m = I.p.modules["xarray"]
    DA = I.global_value(m, "DataArray")
    lab = Arr([sym("label0"), sym("label1")])
    when = Arr([const(r60.T0 + 3), const(r60.T0 + 4)])
    for n, v in (("name", lab), ("date", when)):
        I.call(I.getattr(ds, "__setitem__", st), [const(n), I.call(DA, [v], {"dims": Tup([const("L")])}, None, st)], {}, None, st)
    C = I.global_value(R.p.need("wax.stream.Stream")[0], "Stream")
    inst = I.call(C, [], {}, None, st)
    out = I.call(I.getattr(inst, "get_dataset_schema", st), [ds], {}, None, st)
    e = I.getattr(out, "encoders", st)
    got = I.get(st, e).d if isinstance(e, Ref) else None
    if got is None:
        return undecided(f"encoders {e}")
    if set(got) != {"L", "date", "name"}:
        return violated(f"encoders for {sorted(got)}, required for exactly the dates and labels ['L', 'date', 'name']")
    if kinds.get(I.term(lab, st)) != "label" or kinds.get(I.term(when, st)) != "date":
        return violated(f"labels and dates are encoded by {kinds}")
    return holds()


@prop("W62")
def stream_io(R):
    R.total = True
    R.rule("collect", "unroll_stream stacks every leaf over the observations of the stream, in order, without the first one when skip_first")
    R.rule("replay", "a started data set stream yields its first observation for initialisation and then every observation in time order: its time and values, or positions when tracing")
    R.rule("missing", "a missing observation (also within a buffer) reads as NaN, -99999, 0 or False according to the variable's type, present ones as the data at their position")
    R.rule("local time", "the local time is the chosen one or the only one; several without a choice are an error")
    R.rule("encoders", "exactly the dates and labels of a data set get encoders")
    d = "wax.stream.unroll_stream"
    for n, skip, pbar in itertools.product((1, 2, 4), (False, True), (False, True)):
        if n == 1 and skip:
            continue
        R.ob("collect", f"{d}[n={n},skip_first={skip},pbar={pbar}]", lambda: collect(R, n, skip, pbar), where_(R, d))
    d = "wax.stream.Stream.start_dataset_stream"
    for n, tr, ex in ((1, True, True), (3, True, True), (3, False, True), (3, False, False), (4, True, False)):
        R.ob("replay", f"{d}[n={n},trace={tr},time_dim={'given' if ex else 'found'}]", lambda: replay(R, n, tr, ex), where_(R, d))
    R.ob("replay", "wax.stream.Stream.start_dataset_streams", lambda: replay(R, 3, True, True, True), where_(R, d + "s"))
    d = "wax.stream.tree_access_data"
    for t in DTYPES:
        for b in (False, True):
            R.ob("missing", f"{d}[{t},{'buffered' if b else 'single'}]", lambda: sentinel(R, t, b), where_(R, "wax.stream.access_data"))
    d = "wax.stream.Stream.get_local_time"
    for n, g in ((1, False), (2, False), (3, False), (3, True)):
        R.ob("local time", f"{d}[{n} time dimensions{', chosen' if g else ''}]", lambda: local_time(R, n, g), where_(R, d))
    d = "wax.stream.Stream.get_dataset_schema"
    R.ob("encoders", d, lambda: schema(R, False), where_(R, d))
    for ok in (True, False):
        R.ob("encoders", f"{d}[check,{'faithful' if ok else 'lossy'} encoder]", lambda: checked(R, ok), where_(R, d))
    R.rule("split", "the variables are grouped by their time dimension; a variable with two time dimensions is refused")
    for two in (False, True):
        R.ob("split", f"wax.stream.split_dataset_from_time_dims[{'two time dimensions' if two else 'one each'}]", lambda: split(R, two), where_(R, "wax.stream.split_dataset_from_time_dims"))
    R.control(lambda: collect(R, 3, False, False, True))
