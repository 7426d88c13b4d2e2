"""Formatting utilities: nested arrays become labelled containers without moving a value."""
from . import prop
from ..interp import AbsRaise, Arr, PDict
from ..judge import *
from ..terms import *
from . import r60_stream as r60
from .r10_windows import where_

COORDS = {"a": 2, "b": 3, "c": 3, "d": 2, "e": 1}


def setup(R):
    I, st = r60.interp(R)
    I.handlers["builtins.print"] = lambda I2, a, k, s: NONE
    m = I.p.modules["xarray"]
    return I, st, I.global_value(m, "DataArray"), I.global_value(m, "Dataset")


def array(name, shape):
    if not shape:
        return sym(name)
    return Arr([array(f"{name}_{i}", shape[1:]) for i in range(shape[0])])


def nest(v):
    return [nest(x) for x in v.items] if isinstance(v, Arr) else v


def coords_of(I, st, DA, names=COORDS):
    d = {n: I.call(DA, [Arr([sym(f"{n}{i}") for i in range(k)])], {"dims": Tup([const(n)])}, None, st) for n, k in COORDS.items() if n in names}
    return I.alloc(st, PDict(d))


def labelled(R, I, st, leaf, arr, dims, cls, kind, at, names=COORDS):
    """leaf is a container of class cls holding arr with the dims and their coordinates"""
    p = I.get(st, leaf) if isinstance(leaf, Ref) else None
    if not isinstance(p, PInst):
        return violated(f"{at} is not a labelled container") if isinstance(leaf, (Arr, T)) else undecided(f"{at} is {leaf}")
    if p.cls.node.name != cls:
        return violated(f"{at} is a {p.cls.node.name}, required {cls}")
    rs = [eq_struct(R, I, st, I.getattr(leaf, "values", st), nest(arr), (), f"{at}: values"),
          eq_struct(R, I, st, I.getattr(leaf, "dims", st), [const(d) for d in dims], (), f"{at}: dims")]
    if kind:
        rs.append(eq_struct(R, I, st, I.getattr(leaf, "kind", st), const(kind), (), f"{at}: kind"))
    cs = I.get(st, I.getattr(leaf, "coords", st))
    if not isinstance(cs, PDict):
        return undecided("coordinates")
    need = {d for d in dims if d in names}
    if set(cs.d) != need:
        return violated(f"{at} has the coordinates {sorted(map(str, cs.d))}, required {sorted(need)}")
    for d in need:
        v = I.getattr(cs.d[d], "values", st)
        rs.append(eq_struct(R, I, st, v, [sym(f"{d}{i}") for i in range(COORDS[d])], (), f"{at}: coordinate {d}"))
    return worst(rs)


def formatted(R, fn, leaves, per_leaf, names=COORDS, wrong=False, no_coords=False):
    """leaves: {name: (shape, dims)}; dims given per leaf, or one for all"""
    I, st, DA, DS = setup(R)
    f = I.global_value(R.p.need(f"wax.format.{fn}")[0], fn)
    arrs = {k: array(k, s) for k, (s, d) in leaves.items()}
    data = I.alloc(st, PDict({k: Tup([v]) if i else v for i, (k, v) in enumerate(arrs.items())}))
    if per_leaf:
        dims = I.alloc(st, PDict({k: Tup([Arr([const(x) for x in d])]) if i else Arr([const(x) for x in d]) for i, (k, (s, d)) in enumerate(leaves.items())}))
    else:
        dims = Tup([const(x) for x in next(iter(leaves.values()))[1]])
    out = I.call(f, [NONE if no_coords else coords_of(I, st, DA, names), data, dims], {}, None, st)
    R.saw(I)
    p = I.get(st, out) if isinstance(out, Ref) else None
    if isinstance(p, PInst) and p.cls.node.name == "Dataset":
        p = None
        get = lambda k: I.getitem(out, const(k), st)
    elif isinstance(p, PDict):
        get = lambda k: p.d[k]
    else:
        return undecided(f"output {out}")
    rs = []
    for i, (k, (s, d)) in enumerate(leaves.items()):
        leaf = get(k)
        if i and isinstance(leaf, (Tup, Ref)) and isinstance(leaf, Tup):
            leaf = leaf.items[0]
        if wrong:
            d = d[::-1]
        cls = {"format_dataarray": "DataArray", "format_dataset": "DataArray"}.get(fn, "Frame")
        kind = None if cls == "DataArray" else "series" if fn == "format_series" or len(s) == 1 else "frame"
        rs.append(labelled(R, I, st, leaf, arrs[k], d, cls, kind, f"leaf {k}", () if no_coords else names))
    return worst(rs)


def dataset(R):
    """a dict of arrays becomes one Dataset"""
    I, st, DA, DS = setup(R)
    f = I.global_value(R.p.need("wax.format.format_dataset")[0], "format_dataset")
    arrs = {k: array(k, (2, 3)) for k in ("v", "w")}
    out = I.call(f, [coords_of(I, st, DA), I.alloc(st, PDict(dict(arrs))), Tup([const("a"), const("b")])], {}, None, st)
    R.saw(I)
    p = I.get(st, out) if isinstance(out, Ref) else None
    if not isinstance(p, PInst) or p.cls.node.name != "Dataset":
        return violated("a dict of arrays does not become a Dataset") if isinstance(p, (PDict, PInst)) else undecided(str(out))
    rs = [labelled(R, I, st, I.getitem(out, const(k), st), arrs[k], ("a", "b"), "DataArray", None, k) for k in arrs]
    bare = I.call(f, [coords_of(I, st, DA), arrs["v"], Tup([const("a"), const("b")])], {}, None, st)
    rs.append(labelled(R, I, st, bare, arrs["v"], ("a", "b"), "DataArray", None, "a single array"))
    return worst(rs)


VARS = {"v": ("a", "b"), "w": ("c", "d"), "u": ("c",), "s": ()}


def auto(R, shape, want, fmt=None, tree=False, wrong=False):
    """the dims of the first variable whose leading shape is the shape of the data; data of no such shape stay as they are"""
    I, st, DA, DS = setup(R)
    name = "tree_auto_format_with_shape" if tree else "auto_format_with_shape"
    f = I.global_value(R.p.need(f"wax.format.{name}")[0], name)
    vs = {}
    for k, dims in VARS.items():
        c = {d: Arr([sym(f"{d}{i}") for i in range(COORDS[d])]) for d in dims}
        vs[k] = I.call(DA, [array("t" + k, tuple(COORDS[d] for d in dims))], {"dims": Tup([const(d) for d in dims]), "coords": I.alloc(st, PDict(c))}, None, st)
    ds = I.call(DS, [I.alloc(st, PDict(vs))], {}, None, st)
    arr = array("x", shape)
    data = I.alloc(st, PDict({"p": arr, "q": Tup([array("y", shape)])})) if tree else arr
    kw = {"output_format": const(fmt)} if fmt else {}
    out = I.call(f, [ds, data], kw, None, st)
    R.saw(I)
    outs = [(out, arr)]
    if tree:
        p = I.get(st, out)
        if not isinstance(p, PDict) or set(p.d) != {"p", "q"} or not isinstance(p.d["q"], Tup):
            return undecided("structure of the output")
        outs = [(p.d["p"], arr), (p.d["q"].items[0], array("y", shape))]
    rs = []
    for o, a in outs:
        if want is None:
            if isinstance(o, Ref):
                return violated("data of an unknown shape is labelled")
            rs.append(eq_struct(R, I, st, o, nest(a), (), "data of an unknown shape"))
        else:
            d = want[::-1] if wrong else want
            rs.append(labelled(R, I, st, o, a, d, "Frame" if fmt == "dataframe" else "DataArray", None if fmt != "dataframe" else "series" if len(shape) == 1 else "frame", "data"))
    return worst(rs)


def deep(R, nlevels, wrong=False):
    """a 3-d array becomes a frame with the first nlevels dims as rows and the others as columns"""
    I, st, DA, DS = setup(R)
    f = I.global_value(R.p.need("wax.format.format_dataframe")[0], "format_dataframe")
    arr = array("x", (2, 3, 2))
    dims = ("a", "b", "d")
    kw = {"index_nlevels": const(nlevels)} if nlevels else {}
    out = I.call(f, [coords_of(I, st, DA), arr, Tup([const(d) for d in dims])], kw, None, st)
    R.saw(I)
    want = list(range((nlevels or 1) + (1 if wrong else 0), 3))
    r = labelled(R, I, st, out, arr, dims, "Frame", "frame", "frame")
    if r.status != "holds":
        return r
    lv = I.getattr(out, "levels", st)
    return eq_struct(R, I, st, lv, [const(x) for x in want], (), "levels moved to the columns")


def mixed(R, nlevels):
    """dims per leaf, one leaf with three dims"""
    I, st, DA, DS = setup(R)
    f = I.global_value(R.p.need("wax.format.format_dataframe")[0], "format_dataframe")
    x, y = array("x", (2, 3, 2)), array("y", (3, 2))
    dx, dy = ("a", "b", "d"), ("b", "a")
    mkdims = lambda d: Arr([const(v) for v in d])
    kw = {"index_nlevels": const(nlevels)} if nlevels else {}
    out = I.call(f, [coords_of(I, st, DA), Tup([x, y]), Tup([mkdims(dx), mkdims(dy)])], kw, None, st)
    R.saw(I)
    if not isinstance(out, Tup) or len(out.items) != 2:
        return undecided(f"output {out}")
    rs = [labelled(R, I, st, out.items[0], x, dx, "Frame", "frame", "leaf 0"), labelled(R, I, st, out.items[1], y, dy, "Frame", "frame", "leaf 1")]
    if rs[0].status == "holds":
        rs.append(eq_struct(R, I, st, I.getattr(out.items[0], "levels", st), [const(v) for v in range(nlevels or 1, 3)], (), "leaf 0: levels moved to the columns"))
    return worst(rs)


def unknown(R):
    try:
        auto(R, (2, 3), ("a", "b"), fmt="table")
    except AbsRaise as e:
        return holds() if "ValueError" in str(e.exc) else undecided(f"raises {e.exc}")
    return violated("an unknown format is accepted")


@prop("W64")
def fmt(R):
    R.total = True
    R.rule("labels", "every leaf becomes a container of the stated kind with the same values, the stated dims in order and exactly the reference coordinates of those dims; the nesting is kept")
    R.rule("dataset", "format_dataset returns one Dataset for a mapping of arrays, else the labelled arrays")
    R.rule("auto", "auto formatting uses the dims of the first variable with that leading shape and leaves other data unchanged, leaf by leaf for trees")
    two = {"p": ((2, 3), ("a", "b"))}
    both = {"p": ((2, 3), ("a", "b")), "q": ((3,), ("b",))}
    swapped = {"p": ((3, 2), ("b", "a")), "q": ((2,), ("a",))}
    same = {"p": ((2, 3), ("a", "b")), "q": ((2, 3), ("a", "b"))}
    for fn in ("format_dataarray", "format_dataframe", "format_series", "format_dataset"):
        w = where_(R, f"wax.format.{fn}")
        for n, lv, per in (("one leaf", two, False), ("two leaves, common dims", same, False), ("dims per leaf", both, True), ("dims per leaf, other order", swapped, True)):
            if fn == "format_dataset" and n != "one leaf":
                continue
            R.ob("labels", f"{fn}[{n}]", lambda: formatted(R, fn, lv, per), w)
        R.ob("labels", f"{fn}[partial coordinates]", lambda: formatted(R, fn, two, False, names=("b", "c")), w)
    for k in (None, 1, 2):
        R.ob("labels", f"format_dataframe[3-d, index_nlevels={k}]", lambda: deep(R, k), where_(R, "wax.format.format_dataframe"))
    for n, lv in (("one column", {"p": ((2, 1), ("a", "e")), "q": ((3, 1), ("b", "e"))}), ("one row", {"p": ((1, 3), ("e", "b"))}), ("one value", {"p": ((1,), ("e",)), "q": ((1, 1), ("e", "e2"))})):
        for fn in ("format_dataarray", "format_dataframe", "format_series"):
            R.ob("labels", f"{fn}[{n}]", lambda: formatted(R, fn, lv, True), where_(R, f"wax.format.{fn}"))
    for k in (None, 1, 2):
        R.ob("labels", f"format_dataframe[3-d leaf among others, index_nlevels={k}]", lambda: mixed(R, k), where_(R, "wax.format.format_dataframe"))
    R.ob("labels", "format_dataframe[no coordinates]", lambda: formatted(R, "format_dataframe", same, False, no_coords=True), where_(R, "wax.format.format_dataframe"))
    R.ob("dataset", "mapping", lambda: dataset(R), where_(R, "wax.format.format_dataset"))
    w = where_(R, "wax.format.auto_format_with_shape")
    for tree in (False, True):
        for f in (None, "dataframe"):
            for shape, want in (((2, 3), ("a", "b")), ((3, 2), ("c", "d")), ((2,), ("a",)), ((3,), ("c",)), ((5,), None), ((2, 2), None)):
                R.ob("auto", f"{'tree ' if tree else ''}{shape} {f or 'dataarray'}", lambda: auto(R, shape, want, f, tree), w)
    R.ob("auto", "unknown format", lambda: unknown(R), w)
    R.control(lambda: formatted(R, "format_dataarray", two, False, wrong=True))
    R.control(lambda: deep(R, 1, wrong=True))
    R.control(lambda: auto(R, (2, 3), ("a", "b"), wrong=True))
