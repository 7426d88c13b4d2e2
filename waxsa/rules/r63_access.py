"""Accessors of xarray and pandas containers: apply, ewm, output formatting."""
from . import prop
from ..interp import Arr, PDict, PList
from ..judge import *
from ..terms import *
from . import r60_stream as r60
from .r10_windows import where_
from .r40_unroll import TWS

KINDS = ("Dataset", "DataArray", "DataFrame", "Series")
TIMES = [10, 20, 30]


def interp(R, seen=None):
    I, st = r60.interp(R)

    def transform(I2, a, k, s):
        f = a[0]
        term = lambda v, s2: I2.term(v, s2)

        def init(I3, b, kw, s2):
            y = I3.call(f, b[1:], kw, None, s2)
            arg = I3.models.tree_leaves(I3, y, s2)
            return Tup([mk("app", "INITP", term(b[0], s2), *[term(v, s2) for v in arg]), mk("app", "INITS", term(b[0], s2), *[term(v, s2) for v in arg])])

        def apply(I3, b, kw, s2):
            y = I3.call(f, b[3:], kw, None, s2)
            key = mk("app", "NOKEY") if term(b[2], s2) == NONE else mk("app", "KEY")
            w = lambda v: Arr([w(x) for x in v.items]) if isinstance(v, Arr) else mk("app", "OUT", term(b[0], s2), term(b[1], s2), key, v)
            return Tup([I3.models.tree_map(I3, lambda xs: w(xs[0]), [y], s2), mk("app", "NEXT", term(b[0], s2), term(b[1], s2), key)])

        return Tup([Py("init", init), Py("apply", apply)], "namedtuple", ("init", "apply"), TWS)

    I.handlers["haiku.transform_with_state"] = transform
    return I, st


def module(I, ncols, outs, red=False):
    """an element-wise (red: reducing) module; outs: number of outputs (0: a bare value)"""
    def one(v, i):
        if red and isinstance(v, Arr):
            return mk("app", "MOD", const(i), mk("arr", *v.items))
        w = lambda v: Arr([w(x) for x in v.items]) if isinstance(v, Arr) else mk("app", "MOD", const(i), v)
        return w(v)

    def f(I2, a, k, s):
        x = a[0]
        if not outs:
            return one(x, 0)
        return Tup([one(x, i) for i in range(outs)])

    return Py("module", f)


LEVELS = ("A", "B")


def container(I, st, kind, n, ncols, rows=1):
    """(container, per-step values, dims, coords); ncols may be a shape: rows + columns of a frame with multi-index"""
    m = I.p.modules["xarray"]
    DA, DS, FR = (I.global_value(m, c) for c in ("DataArray", "Dataset", "Frame"))
    if isinstance(ncols, tuple):
        return multi(I, st, FR, DA, n, ncols, rows)
    vals = [[sym(f"x{i}_{j}") for j in range(ncols)] if ncols else sym(f"x{i}") for i in range(n)]
    arr = r60.to_arr_(vals)
    dims = Tup([const("time")] + ([const("col")] if ncols else []))
    coords = {"time": Arr([const(r60.T0 + t) for t in TIMES[:n]])}
    if ncols:
        coords["col"] = Arr([sym(f"col{j}") for j in range(ncols)])
    cs = I.alloc(st, PDict(coords))
    da = I.call(DA, [arr], {"dims": dims, "coords": cs}, None, st)
    if kind == "DataArray":
        return da, vals, dims, coords
    if kind == "Dataset":
        # a second variable, that the module does not use
        return I.call(DS, [I.alloc(st, PDict({"v": da, "u": da}))], {}, None, st), vals, dims, coords
    return I.call(FR, [arr, dims, I.getattr(da, "coords", st), const("series" if kind == "Series" else "frame")], {}, None, st), vals, dims, coords


def multi(I, st, FR, DA, n, shape, rows):
    a, b = shape
    vals = [[[sym(f"x{i}_{j}_{k}") for k in range(b)] for j in range(a)] for i in range(n)]
    dims = Tup([const(d) for d in ("time",) + LEVELS])
    coords = {"time": Arr([const(r60.T0 + t) for t in TIMES[:n]])}
    for d, m in zip(LEVELS, shape):
        coords[d] = Arr([sym(f"{d}{j}") for j in range(m)])
    arr = Arr([Arr([Arr(r) for r in v]) for v in vals])
    da = I.call(DA, [arr], {"dims": dims, "coords": I.alloc(st, PDict(coords))}, None, st)
    return I.call(FR, [arr, dims, I.getattr(da, "coords", st), const("frame"), const(rows)], {}, None, st), vals, dims, coords


def accessor(R, I, st, kind, obj):
    name = f"wax.accessors.Wax{kind}Accessor"
    C = I.global_value(R.p.need(name)[0], f"Wax{kind}Accessor")
    return I.call(C, [obj], {}, None, st)


def fold(vals, p, s, key, i, skip, red=False):
    out = []
    if red:
        vals = [mk("arr", *v) if isinstance(v, list) else v for v in vals]
    for v in vals[1:] if skip else vals:
        w = lambda v: [w(x) for x in v] if isinstance(v, list) else mk("app", "OUT", p, s, key, mk("app", "MOD", const(i), v))
        out.append(w(v))
        s = mk("app", "NEXT", p, s, key)
    return out, s


def init_terms(vals, rng, outs, red):
    lv = lambda v: mk("arr", *v) if isinstance(v, list) else v
    first = vals[0]
    each = lambda i, v: mk("arr", *[each(i, x) for x in v]) if isinstance(v, list) else mk("app", "MOD", const(i), v)
    one = lambda i: each(i, first) if not red else mk("app", "MOD", const(i), lv(first))
    args = [one(i) for i in range(outs or 1)]
    return mk("app", "INITP", rng, *args), mk("app", "INITS", rng, *args)


def apply_check(R, kind, ncols, skip=False, given=(), ret=True, fmt=True, outs=0, n=3, rng=False, wrong=False, red=False, rows=1, dimless=False):
    I, st = interp(R)
    obj, vals, dims, coords = container(I, st, kind, n, ncols, rows)
    full = dims, coords
    if red:
        dims, coords = Tup(dims.items[:1]), {"time": coords["time"]}
    acc = accessor(R, I, st, kind, obj)
    stream = I.call(I.getattr(acc, "stream", st), [], {"return_state": TRUE if ret else FALSE, "format_outputs": TRUE if fmt else FALSE}, None, st)
    mod = module(I, ncols, outs, red)
    if kind == "Dataset":
        inner = mod
        mod = Py("module", lambda I2, a, k, s: I2.call(inner, [I2.getitem(a[0], const("v"), s)], {}, None, s))
    kw = {"skip_first": TRUE if skip else FALSE}
    if kind == "Dataset" and not dimless:
        kw["format_dims"] = Arr(list(full[0].items))
    for g in given:
        kw[g] = mk("app", "GIVEN" + g.upper())
    key = sym("rng", fixed=1)
    if rng:
        kw["rng"] = key
    out = I.call(I.getattr(stream, "apply", st), [mod], kw, None, st)
    R.saw(I)
    if ret:
        out, state = I.unpack(out, 2, st)
    else:
        state = None
    p, s = init_terms(vals, key if rng else NONE, outs, red)
    if rng:
        return rng_check(I, st, out, key)
    p, s = kw.get("params", p), kw.get("state", s)
    leaves = I.unpack(out, outs, st) if outs else [out]
    w = None
    for i, leaf in enumerate(leaves):
        want, last = fold(vals, p, s, mk("app", "NOKEY"), i, skip or wrong, red)
        at = f"output {i}" if outs else "output"
        if fmt:
            if not (isinstance(leaf, Ref) and isinstance(I.get(st, leaf), PInst)):
                return undecided(f"{at} is {leaf}")
            cls = I.get(st, leaf).cls.node.name
            wc = {"Dataset": "DataArray", "DataArray": "DataArray"}.get(kind, "Frame")
            if cls != wc:
                return violated(f"{at} is a {cls}, required {wc}")
            r = formatted(R, I, st, leaf, kind, want, dims, coords, skip, ncols, at)
            if r.status == "holds" and isinstance(ncols, tuple):
                r = eq_struct(R, I, st, I.getattr(leaf, "levels", st), [const(x) for x in range(rows, 3)], (), f"{at}: levels that are columns")
        else:
            r = eq_struct(R, I, st, leaf, want, (), at)
        if r.status != "holds":
            return r
    if ret:
        return eq_struct(R, I, st, state, last, (), "returned state")
    return holds()


def rng_check(I, st, out, key):
    t = I.term(out if isinstance(out, T) else I.models.tree_leaves(I, out, st)[0], st) if not isinstance(out, Ref) else I.term(I.getattr(out, "values", st), st)
    seen = {"key": False, "nokey": False, "init": False}

    def walk(x):
        if isinstance(x, T):
            if x.op == "app" and x.args[0] == "NOKEY":
                seen["nokey"] = True
            if x.op == "app" and x.args[0] == "INITP":
                seen["init" if x.args[1] == key else "other"] = True
            for a in x.args:
                walk(a)
    walk(t)
    if seen["nokey"]:
        return violated("the steps receive no random key although one is given")
    if seen.get("other"):
        return violated("init does not receive the given random key")
    return holds()


def formatted(R, I, st, leaf, kind, want, dims, coords, skip, ncols, at):
    r = eq_struct(R, I, st, I.getattr(leaf, "values", st), want, (), f"{at}: values")
    if r.status != "holds":
        return r
    r = eq_struct(R, I, st, I.getattr(leaf, "dims", st), list(dims.items), (), f"{at}: dims")
    if r.status != "holds":
        return r
    cs = I.get(st, I.getattr(leaf, "coords", st))
    if not isinstance(cs, PDict):
        return undecided("coordinates")
    if set(cs.d) != set(coords):
        return violated(f"{at} has coordinates {sorted(cs.d)}, required {sorted(coords)}")
    for d, c in coords.items():
        v = I.getattr(cs.d[d], "values", st)
        items = list(c.items)
        r = eq_struct(R, I, st, v, items[1:] if skip and d == "time" else items, (), f"{at}: coordinate {d}")
        if r.status != "holds":
            return r
    if kind == "Series" or (kind == "DataFrame" and not ncols):
        if I.getattr(leaf, "kind", st) != const("series"):
            return violated(f"{at} is not a series")
    return holds()


FIELDS = {"com": sym("COM"), "alpha": NONE, "min_periods": sym("MINP", integer=1), "adjust": FALSE, "ignore_na": TRUE, "initial_value": sym("INITV")}


def ewm_check(R, kind, ret, fmt, cfg, wrong=False):
    I, st = interp(R)
    made = []

    def ewma(I2, fv, a, k, s):
        d = dict(k)
        mod, node = R.p.need("wax.modules.ewma.EWMA")
        made.append((list(a), d))
        w = lambda v: Arr([w(x) for x in v.items]) if isinstance(v, Arr) else mk("app", "EWMA", v)
        return Py("ewma", lambda I3, b, kw, s3: w(b[0]))

    I.class_models = {"wax.modules.ewma.EWMA": ewma}
    obj, vals, dims, coords = container(I, st, kind, 3, 0 if kind == "Series" else 2)
    acc = accessor(R, I, st, kind, obj)
    kw = dict(cfg)
    if ret is not None:
        kw["return_state"] = TRUE if ret else FALSE
    if fmt is not None:
        kw["format_outputs"] = TRUE if fmt else FALSE
    win = I.call(I.getattr(acc, "ewm", st), [], kw, None, st)
    out = I.call(I.getattr(win, "mean", st), [], {}, None, st)
    R.saw(I)
    # signature of EWMA decides which field a positional argument stands for
    if not made:
        return undecided("no EWMA was built")
    defaults = {"com": NONE, "alpha": NONE, "min_periods": ZERO, "adjust": TRUE, "ignore_na": FALSE, "initial_value": NAN}
    mod, node = R.p.need("wax.modules.ewma.EWMA.__init__")
    names = [x.arg for x in node.args.args][1:]
    if wrong:
        defaults["min_periods"] = ONE
    for a, k in made:
        got = {**{n: v for n, v in zip(names, a)}, **k}
        for f, dv in defaults.items():
            want = cfg.get(f, dv)
            v = got.get(f)
            if v is None:
                # EWMA's own default applies
                ds = dict(zip(reversed([x.arg for x in node.args.args]), reversed(node.args.defaults)))
                if f not in ds:
                    return undecided(f"EWMA argument {f}")
                I0 = Interp(R.p)
                v = I0.eval(ds[f], I0.module_frame(mod), S()) if hasattr(I0, "module_frame") else None
                if v is None:
                    if f in cfg:
                        return violated(f"ewm({f}=...) is not passed to EWMA")
                    continue
            r = eq_struct(R, I, st, v, want, (), f"EWMA argument {f}")
            if r.status != "holds":
                return r
    if ret:
        if not isinstance(out, Tup) or len(out.items) != 2:
            return violated("ewm(return_state=True).mean() does not return the outputs and the state") if isinstance(out, (Arr, Tup, Ref)) else undecided(str(out))
        out, state = out.items
    if fmt is False:
        return holds() if not isinstance(out, Ref) else violated("formatted output although format_outputs is false")
    if not (isinstance(out, Ref) and isinstance(I.get(st, out), PInst)):
        if isinstance(out, (Arr, Tup)):
            return violated(f"ewm().mean() returns {type(out).__name__}, required a formatted container")
        return undecided(f"output {out}")
    r = eq_struct(R, I, st, I.getattr(out, "dims", st), list(dims.items), (), "output: dims")
    return r


@prop("W63")
def access(R):
    R.total = True
    R.rule("apply", "apply returns the module's outputs over the container's time steps from the given params/state (else those of init), in a container of the same kind with the input's dims and coordinates; the returned state is the last one")
    R.rule("options", "skip_first drops the first output and its coordinate; format_outputs=False returns the raw outputs; return_state selects whether the state is returned; rng reaches init and every step")
    R.rule("ewm", "ewm(fields).mean() applies EWMA with exactly these fields, the documented defaults elsewhere")
    for kind in KINDS:
        d = f"wax.accessors.Stream{kind}.apply"
        w = where_(R, d)
        cols = (0,) if kind == "Series" else (2,) if kind == "DataFrame" else (0, 2)
        for nc in cols:
            R.ob("apply", f"{d}[{'columns' if nc else 'one value'} per step]", lambda: apply_check(R, kind, nc), w)
            R.ob("apply", f"{d}[{'columns' if nc else 'one value'} per step,two outputs]", lambda: apply_check(R, kind, nc, outs=2), w)
            if nc and kind != "DataFrame":
                R.ob("apply", f"{d}[columns reduced to one value,two outputs,square]", lambda: apply_check(R, kind, nc, outs=2, n=2, red=True), w)
            R.ob("options", f"{d}[{nc},skip_first]", lambda: apply_check(R, kind, nc, skip=True), w)
            R.ob("options", f"{d}[{nc},raw]", lambda: apply_check(R, kind, nc, fmt=False), w)
            R.ob("options", f"{d}[{nc},raw,skip_first]", lambda: apply_check(R, kind, nc, fmt=False, skip=True), w)
            R.ob("options", f"{d}[{nc},no state]", lambda: apply_check(R, kind, nc, ret=False), w)
            R.ob("options", f"{d}[{nc},rng]", lambda: apply_check(R, kind, nc, rng=True), w)
        if kind == "DataFrame":
            for rows in (1, 2):
                for skip in (False, True):
                    R.ob("apply", f"{d}[multi-index, {rows} index levels{', skip_first' if skip else ''}]", lambda: apply_check(R, kind, (2, 2), rows=rows, skip=skip), w)
            R.ob("apply", f"{d}[multi-index, two outputs]", lambda: apply_check(R, kind, (2, 3), outs=2), w)
        for g in (("params",), ("state",), ("params", "state")):
            R.ob("options", f"{d}[given {'+'.join(g)}]", lambda: apply_check(R, kind, cols[0], given=g), w)
        if kind != "Dataset":
            for name, cfg in (("default", {"com": sym("COM")}), ("all", FIELDS), ("alpha", {"alpha": sym("ALPHA"), "adjust": const("linear")})):
                R.ob("ewm", f"wax.accessors.ExponentialMovingWindow.mean[{kind},{name}]", lambda: ewm_check(R, kind, None, None, cfg), where_(R, "wax.accessors.ExponentialMovingWindow.mean"))
            for ret, fmt in ((True, True), (False, False), (True, False)):
                R.ob("ewm", f"wax.accessors.ExponentialMovingWindow.mean[{kind},return_state={ret},format_outputs={fmt}]", lambda: ewm_check(R, kind, ret, fmt, FIELDS), where_(R, "wax.accessors.ExponentialMovingWindow.mean"))
    R.control(lambda: apply_check(R, "DataArray", 0, fmt=False, wrong=True))
    R.control(lambda: ewm_check(R, "Series", None, None, {"com": sym("COM")}, True))
