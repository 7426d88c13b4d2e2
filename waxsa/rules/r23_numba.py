"""The NumPy/numba implementation of the exponential moving average."""
from . import prop
from .r10_windows import where_
from .r20_ewm import ewma_step, com, alpha, iv
from ..judge import *
from ..npmode import NpInterp, PNd
from ..interp import Arr, Ext, Ref, S, Tup, Py, PDict
from ..terms import *

D = "wax.numba.ewma_numba.ewma"


def uninit(I, a, k, st):
    """np.empty: arbitrary content"""
    from .. import nd
    from ..interp import fresh

    sh = a[0] if a else k["shape"]
    its = I.iter_items(sh, st)
    s = [int(I.pyval(x)) for x in (its if its is not None else [sh])]
    n = 1
    for x in s:
        n *= x
    return nd.build(s, [sym(f"uninit{fresh('u')}") for _ in range(n)])


def setup(R, cfg):
    I, st = NpInterp(R.p), S()
    R.interps.append(I)
    I.handlers.update({"numpy.empty": uninit, "jax.numpy.empty": uninit, "numba.prange": lambda I, a, k, s: I.call(Ext("builtins.range"), list(a), {}, None, s)})
    mod, _ = R.p.need(D)
    f = I.call(I.global_value(mod, "ewma"), [], dict(cfg), None, st)
    I.sure = False
    return I, st, mod, f


def cells(rows, cols, name="x"):
    return [[sym(f"{name}{i}{j}", nan=True) for j in range(cols)] for i in range(rows)]


def fold(vals, state, c, adjust, ignore_na, mp):
    """per column: [output rows], final state"""
    outs = []
    for row in vals:
        o = []
        for j, x in enumerate(row):
            m, w, n = state[j]
            out, m1, w2, n1, _ = ewma_step(m, w, n, x, c, adjust, ignore_na, mp)
            # the weight only counts once there is a mean; until then it is the initial one
            state[j] = (m1, ite(mk("isnan", m1), w, w2), n1)
            o.append(out)
        outs.append(o)
    return outs, state


def content(I, st, v):
    v = I.deref(v, st)
    return v


def rows_of(v):
    from .. import nd

    return nd.flat(v), nd.shape(v)


def check(R, cfg, c, adjust, ignore_na, mp, rows, cols, prev=None, flat=False, init=NAN, split=None, wrong=False):
    I, st, mod, f = setup(R, cfg)
    vals = cells(rows, cols)
    arr = Arr([r[0] for r in vals]) if flat else Arr([Arr(r) for r in vals])
    given = []
    assume = []
    if prev is None:
        state = [(init, ONE, ZERO)] * cols
        args = []
    else:
        state = []
        for j in range(cols):
            m = sym(f"m{j}") if prev == "mean" else NAN
            w = sym(f"w{j}", pos=True) if prev == "mean" else ONE
            n = sym(f"n{j}", int=True)
            state.append((m, w, n))
            assume += [mk("le", ZERO, n), mk("lt", ZERO, w)]
        ES = I.global_value(mod, "EWMAState")
        given = [I.array(st, Arr([s[i] for s in state])) for i in range(3)]
        args = [I.call(ES, [], dict(zip(("mean", "old_wt", "nobs"), given)), None, st)]
    before = [s for s in state]
    src = I.array(st, arr)
    if split:
        first = I.array(st, Arr(arr.items[:split]))
        res1, s1 = I.unpack(I.call(f, [first], {}, None, st), 2, st)
        keep = I.deref(res1, st)
        res2, out_state = I.unpack(I.call(f, [I.array(st, Arr(arr.items[split:])), s1], {}, None, st), 2, st)
        got = Arr(list(I.deref(res1, st).items) + list(I.deref(res2, st).items))
    else:
        res, out_state = I.unpack(I.call(f, [src] + args, {}, None, st), 2, st)
        got = I.deref(res, st)
    want, last = fold(vals, list(state), c, adjust, not ignore_na if wrong else ignore_na, mp)
    if not isinstance(got, Arr):
        return undecided(f"result {got}")
    rs = [eq_struct(R, I, st, got, [r[0] for r in want] if flat else want, assume, "result")]
    for i, name in enumerate(("mean", "old_wt", "nobs")):
        g = I.deref(I.getattr(out_state, name, st), st)
        if not isinstance(g, Arr):
            return undecided(f"state {name} is {g}")
        rs.append(eq_struct(R, I, st, g, [s[i] for s in last], assume, f"returned state {name}"))
    return worst(rs)


def as_list(v):
    return [as_list(x) for x in v.items] if isinstance(v, Arr) else v


def untouched(R, cfg, flat=False):
    """the caller's values and state have the same content after the call"""
    I, st, mod, f = setup(R, cfg)
    cols = 1 if flat else 2
    vals = cells(2, cols)
    arr = Arr([r[0] for r in vals]) if flat else Arr([Arr(r) for r in vals])
    src = I.array(st, arr)
    ES = I.global_value(mod, "EWMAState")
    content = [Arr([sym(f"{n}{j}", pos=n == "w", int=n == "n") for j in range(cols)]) for n in "mwn"]
    given = [I.array(st, c) for c in content]
    state = I.call(ES, [], dict(zip(("mean", "old_wt", "nobs"), given)), None, st)
    I.call(f, [src, state], {}, None, st)
    rs = []
    for name, ref, c in [("values", src, arr)] + [("state." + n, r, c) for n, r, c in zip(("mean", "old_wt", "nobs"), given, content)]:
        now = I.get(st, ref).v
        r = eq_struct(R, I, st, now, as_list(c), [mk("lt", ZERO, x) for x in content[1].items], f"the caller's {name} after the call")
        rs.append(r)
    return worst(rs)


OPTS = ("com", "alpha", "min_periods", "adjust", "ignore_na", "initial_value")


def accessor(R, series, given, state=False, ret=False, wrong=False):
    I, st = NpInterp(R.p), S()
    R.interps.append(I)
    mod, _ = R.p.need(D)
    obj = sym("obj", fixed=1)
    frame = mk("app", "frame", obj) if series else obj
    isi = lambda I2, a, k, s: const(series) if isinstance(a[1], Ext) and a[1].name == "pandas.Series" else FALSE
    I.handlers["builtins.isinstance"] = isi
    mk_frame = lambda I2, a, k, s: frame
    old = I.models.term_attr

    def hook(I2, o, name, s):
        if o is obj and name == "to_frame":
            return Py("to_frame", mk_frame)
        if o is prev and name in ("reindex", "set_axis"):    # by label, by position
            return Py(name, lambda I3, a, k, s3: mk("app", "ROWS" if name == "reindex" else "POSITIONS", prev, I3.term(a[0] if a else list(k.values())[0], s3)))
        if name in ("dropna", "fillna", "ffill", "bfill", "iloc") and o.op in ("app", "expandidx"):
            return mk("app", "ILOC", o) if name == "iloc" else Py(name, lambda I3, a, k, s3: mk("app", name.upper(), o, *[I3.term(x, s3) for x in a]))
        return None

    def labelled(nm, names):
        def f(I2, a, k, s):
            v = dict(zip(names, a)) | k
            return mk("app", nm, *[I2.term(v.get(n, NONE), s) for n in names])

        return f

    I.handlers["pandas.DataFrame"] = labelled("FRAME", ("data", "index", "columns"))
    I.handlers["pandas.Series"] = labelled("SERIES", ("data", "index"))
    I.handlers["pandas.concat"] = labelled("CONCAT", ("objs", "axis"))
    prev = sym("previous", fixed=1)
    I.term_hook = hook
    calls = []
    ES = I.global_value(mod, "EWMAState")

    def apply(I2, a, k, s):
        calls[-1].append((list(a), dict(k)))
        return Tup([mk("app", "RES"), I2.call(ES, [], {n: mk("app", "STATE", const(n)) for n in ("mean", "old_wt", "nobs")}, None, s)])

    def fake(I2, a, k, s):
        calls.append([dict(k)])
        if a:
            raise GiveUp("positional options")
        return Py("apply", apply)

    I.gcache[(mod.name, "ewma")] = I.gcache[(mod, "ewma")] = Py("ewma", fake)
    A = I.call(I.global_value(mod, "WaxNumbaEWMAccessor"), [obj], {}, None, st)
    opts = {n: sym("opt_" + n, fixed=1) for n in given}
    w = I.call(I.getattr(A, "ewm", st), [], {**opts, "return_state": const(ret)}, None, st)
    out = I.call(I.getattr(w, "mean", st), [prev] if state else [], {}, None, st)
    if len(calls) != 1 or len(calls[0]) != 2:
        return undecided(f"{len(calls)} constructions of ewma")
    kw, (args, akw) = calls[0]
    dflt = {"com": NONE, "alpha": NONE, "min_periods": ZERO, "adjust": TRUE, "ignore_na": FALSE, "initial_value": NAN}
    rs = []
    for n in OPTS:
        rs.append(eq_struct(R, I, st, kw.get(n, dflt[n]), NONE if wrong else opts.get(n, dflt[n]), [], f"option {n} of ewma"))
    args = args + list(akw.values())
    rs.append(eq_struct(R, I, st, args[0], mk("attr", frame, "values"), [], "values"))
    if not state:
        rs.append(eq_struct(R, I, st, args[1] if len(args) > 1 else NONE, NONE, [], "state"))
    index, columns = mk("attr", frame, "index"), mk("attr", frame, "columns")
    if state:
        rows = mk("app", "ROWS", prev, columns)
        want = I.call(ES, [], {n: I.getattr(I.getitem(rows, const(n), st), "values", st) for n in STATE}, None, st)
        if len(args) < 2:
            return violated("the given state is not used")
        for n in STATE:
            rs.append(eq_struct(R, I, st, I.getattr(args[1], n, st), I.getattr(want, n, st), [], f"{n} of the given state"))
    res = mk("app", "FRAME", mk("app", "RES"), index, columns)
    if series:
        res = I.getitem(mk("app", "ILOC", res), Tup([SLICE, ZERO]), st)
    if ret:
        out, nst = I.unpack(out, 2, st)
        cols = I.alloc(st, PDict({n: mk("app", "SERIES", mk("app", "STATE", const(n)), columns) for n in STATE}))
        rs.append(eq_struct(R, I, st, nst, mk("app", "CONCAT", I.term(cols, st), ONE), [], "returned state"))
    rs.append(eq_struct(R, I, st, out, res, [], "returned values"))
    return worst(rs)


STATE = ("mean", "old_wt", "nobs")
SLICE = Tup([NONE, NONE, NONE], "slice")


MODES = [(a, i) for a in (True, False, "linear") for i in (False, True)]


@prop("W23")
def numba_ewma(R):
    R.total = True
    R.rule("numba-fold", "ewma(...)(values) gives in every row and column the documented recursion of the rows so far, and the state after the last row")
    R.rule("numba-resume", "applying it to a second block with the state returned by the first equals applying it to both blocks at once")
    R.rule("numba-pure", "the values and the state given by the caller are unchanged after the call")
    R.rule("numba-accessor", "df.wax_numba.ewm(...).mean() calls ewma with exactly the given options on the object's values and the given state's rows of the object's columns, and labels values and state like the object")
    w = where_(R, D)
    for adj, ign in MODES:
        cfg = {"com": com, "adjust": const(adj), "ignore_na": const(ign)}
        nm = f"adjust={adj},ignore_na={ign}"
        R.ob("numba-fold", f"[{nm},from the start]", lambda: check(R, cfg, com, adj, ign, 0, 2, 2), w)
        R.ob("numba-fold", f"[{nm},any state]", lambda: check(R, cfg, com, adj, ign, 0, 1, 2, prev="mean"), w)
        R.ob("numba-fold", f"[{nm},state without observation]", lambda: check(R, cfg, com, adj, ign, 0, 1, 2, prev="nan"), w)
        R.ob("numba-resume", f"[{nm}]", lambda: check(R, cfg, com, adj, ign, 0, 2, 1, split=1), w)
        R.ob("numba-pure", f"[{nm}]", lambda: untouched(R, cfg), w)
    for adj in (True, False):
        R.ob("numba-fold", f"[min_periods=2,adjust={adj}]", lambda: check(R, {"com": com, "adjust": const(adj), "min_periods": const(2)}, com, adj, False, 2, 3, 1), w)
        R.ob("numba-fold", f"[min_periods=2,adjust={adj},any state]", lambda: check(R, {"com": com, "adjust": const(adj), "min_periods": const(2)}, com, adj, False, 2, 1, 1, prev="mean"), w)
        R.ob("numba-fold", f"[alpha,adjust={adj}]", lambda: check(R, {"alpha": alpha, "adjust": const(adj)}, mk("sub", mk("div", ONE, alpha), ONE), adj, False, 0, 1, 1, prev="mean"), w)
        R.ob("numba-fold", f"[initial_value,adjust={adj}]", lambda: check(R, {"com": com, "adjust": const(adj), "initial_value": iv}, com, adj, False, 0, 2, 1, init=iv), w)
    R.ob("numba-fold", "[1-d values]", lambda: check(R, {"com": com}, com, True, False, 0, 2, 1, flat=True), w)
    R.ob("numba-pure", "[1-d values]", lambda: untouched(R, {"com": com}, flat=True), w)
    wa = where_(R, "wax.numba.ewma_numba.NumbaExponentialMovingWindow")
    for series in (False, True):
        for given in (("com",), ("alpha", "min_periods"), ("com", "adjust", "ignore_na", "initial_value"), ("com", "min_periods", "initial_value")):
            for ret in (False, True):
                for prev in (False, True):
                    R.ob("numba-accessor", f"[{'Series' if series else 'DataFrame'},{'+'.join(given)},return_state={ret}{',state given' if prev else ''}]", lambda: accessor(R, series, given, state=prev, ret=ret), wa)
    R.control(lambda: accessor(R, False, ("com",), wrong=True))
    R.control(lambda: check(R, {"com": com}, com, True, False, 0, 1, 1, prev="mean", wrong=True))
