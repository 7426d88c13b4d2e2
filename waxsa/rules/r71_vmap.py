"""Batched (vmapped) modules: per-element parameters, state, keys and outputs."""
from . import prop
from ..interp import Arr, NTCls, PDict
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r40_unroll import Model, TWS, KWX, RNG, is_none_term, distinct

VL = "wax.stateful.vmap_lift_with_state"


class Ranks(Model):
    """every element's outputs: a scalar, a vector and a matrix"""

    def outs(self, args):
        v = lambda n: mk("app", n, *args)
        return {"a": v("OUTA"), "b": ([v("OUTB"), v("OUTC")], [[v("OUTD"), v("OUTE"), v("OUTF")], [v("OUTG"), v("OUTH"), v("OUTI")]])}

    def pair(self, I, st, cls=TWS):
        init, apply = self.build(I, st)

        def arrays(I2, a, k, s):
            o = I2.call(apply, a, k, None, s)
            d = self.outs(list(self.calls[-1]))
            arr = lambda x: Arr([arr(y) for y in x]) if isinstance(x, list) else x
            return Tup([I2.alloc(s, PDict({"a": d["a"], "b": Tup([arr(x) for x in d["b"]])})), o.items[1]])

        return Tup([init, Py("apply", arrays)], "namedtuple", ("init", "apply"), cls)


OUTS = frozenset("OUT" + c for c in "ABCDEFGHI")


def setup(R, m, init, params="p", state="s", n=3, rng=True, created=None):
    """created: names of the lifted modules made by the initialisation (None: any name exists)"""
    I = Interp(R.p)
    I.explicit_vmap = I.scalar_items = I.concrete = True
    I.has_rng = None if rng else False
    I.lifts = []
    I.running_init = TRUE if init else FALSE
    st = S()
    ups = []
    I.handlers["haiku.transform_with_state"] = lambda I2, a, k, s: m.pair(I2, s, TWS)

    def lift(I2, a, k, s):
        fn = a[0]
        nm = k.get("name", a[1] if len(a) > 1 else const("lifted"))
        I2.lifts.append((nm, sum(1 for x, _ in I2.lifts if x == nm)))
        if created is not None and I2.lifts[-1] not in created:
            raise AbsRaise("ValueError", sure=True)

        def get(I3, a3, k3, s3):
            if init:
                return I3.call(fn, a3, k3, None, s3)
            return Tup([Arr([sym(f"{params}{i}") for i in range(n)]), Arr([sym(f"{state}{i}") for i in range(n)])])

        def upd(I3, a3, k3, s3):
            ups.append(a3[0])
            return NONE

        return Tup([Py("lifted", get), Tup([Py("update", upd)], "namedtuple", ("update",), NTCls("Updater", ("update",)))])

    for nm in ("haiku.experimental.lift_with_state", "haiku.lift_with_state"):
        I.handlers[nm] = lift
    R.interps.append(I)
    return I, st, ups


def batch_of(I, st, n, tree):
    x = Arr([sym(f"x{i}") for i in range(n)])
    if not tree:
        return x, [sym(f"x{i}") for i in range(n)]
    y = Arr([sym(f"y{i}") for i in range(n)])
    rows = [I.term(Tup([sym(f"x{i}"), sym(f"y{i}")]), st) for i in range(n)]
    return Tup([x, y]), rows


def mean(xs):
    t = ZERO
    for x in xs:
        t = mk("add", t, x)
    return mk("div", t, const(len(xs)))


def element_spec(m, init, rows, kw, n):
    outs, nxt = [], []
    for i in range(n):
        a = ([] if kw == "only" else [rows[i]]) + ([mk("kw", KWX, sym(f"c{i}"))] if kw else [])
        p, s = (mk("app", "INITP", *a), mk("app", "INITS", *a)) if init else (sym(f"p{i}"), sym(f"s{i}"))
        outs.append(m.outs([p, s, *a]))
        nxt.append(m.nxt([p, s, *a]))
    return outs, nxt


def updated(R, I, s, ups, nxt):
    if not ups:
        return violated("the surrounding module's state is never updated")
    return worst([undecided("several state updates")] if len(ups) > 1 else [eq_struct(R, I, s.st, ups[0], nxt, (), "state handed to the surrounding module")])


def zipped(f, xs):
    """f of the lists of corresponding leaves"""
    if isinstance(xs[0], dict):
        return {k: zipped(f, [x[k] for x in xs]) for k in xs[0]}
    if isinstance(xs[0], tuple):
        return tuple(zipped(f, [x[i] for x in xs]) for i in range(len(xs[0])))
    return f(xs)


def mean_rank(xs):
    return [mean_rank([x[i] for x in xs]) for i in range(len(xs[0]))] if isinstance(xs[0], list) else mean(xs)


def lifted(R, d, cfg, init, kw=False, tree=False, intree=False, n=3, call=None, take_mean=False, wrong=False, rng=True, created=None, model=None):
    m = (model or Model)(tree)
    I, st, ups = setup(R, m, init, n=n, rng=rng, created=created)
    m.I = I
    I.scalars = model is not None
    x, rows = batch_of(I, st, n, intree)
    c = Arr([sym(f"c{i}") for i in range(n)])
    if call is None:
        s = run_function(R, d, [sym("fn", fixed=1)], dict(cfg), I=I, st=st)
        fn = s.out
    else:
        s, fn = call(I, st)
    out = I.call(fn, [] if kw == "only" else [x], {KWX: c} if kw else {}, None, s.st)
    outs, nxt = element_spec(m, init, list(reversed(rows)) if wrong else rows, kw, n)
    if take_mean:
        want = zipped(mean_rank, outs)
    else:
        want = zipped(list, outs)
    r = worst([eq_struct(R, I, s.st, out, want, (), "batched output"), updated(R, I, s, ups, nxt)])
    return r, m


def keys(R, split, init, n=3):
    r, m = lifted(R, VL, {"split_rng": TRUE if split else FALSE}, init, n=n)
    res = []
    if split:
        bad = [k for k in m.keys if is_none_term(k)]
        if bad:
            return violated("split_rng: an element receives no key")
        res.append(distinct(m.keys))
        if len(m.keys) != n:
            res.append(undecided(f"{len(m.keys)} apply calls for {n} elements"))
        if init:
            if any(is_none_term(k) for k in m.init_keys):
                return violated("split_rng: an element is initialised without key")
            res.append(distinct(m.init_keys))
            res.append(distinct(m.init_keys + m.keys))
    else:
        bad = [k for k in m.keys if not is_none_term(k)]
        if bad:
            return violated(f"split_rng=False: an element's apply receives key {show(bad[0])}")
        if init:
            if any(is_none_term(k) for k in m.init_keys):
                return violated("init_rng: an element is initialised without key")
            if any(k is not m.init_keys[0] for k in m.init_keys):
                res.append(undecided("different initialisation keys without split_rng"))
    return worst(res) if res else holds()


def noinit(R):
    r, m = lifted(R, VL, {"init_rng": FALSE}, True)
    bad = [k for k in m.init_keys + m.keys if not is_none_term(k)]
    return worst([r, violated(f"init_rng=False: a key {show(bad[0])} is used") if bad else holds()])


def keyless(R, d, cfg, init_key, take_mean, call=None, init_rng=True):
    """initialised with or without a key, applied without"""
    cfg = dict(cfg)
    r0, m0 = lifted(R, d, cfg, True, rng=init_key, take_mean=take_mean, call=call)
    r, m = lifted(R, d, cfg, False, rng=False, created=list(m0.I.lifts), take_mean=take_mean, call=call)
    bad = [k for k in m.keys if not is_none_term(k)]
    return worst([r0, r] + ([undecided(f"key {show(bad[0])}")] if bad else []))


def vmap_keys(R, d):
    """the deprecated module initialises its elements with a key and applies them without"""
    r, m = lifted(R, d, {}, True, True, call=vmap_module)
    if any(is_none_term(k) for k in m.init_keys):
        return worst([r, violated("an element is initialised without key")])
    return r


def raises(R):
    I, st, _ = setup(R, Model(), False)
    try:
        run_function(R, VL, [sym("fn", fixed=1)], {"split_rng": TRUE, "init_rng": FALSE}, I=I, st=st)
    except AbsRaise as e:
        return holds() if e.exc.endswith("ValueError") else undecided(f"raises {e.exc}")
    return violated("split_rng=True with init_rng=False is accepted")


def vmap_module(I, st):
    mod, node = I.p.need("wax.modules.vmap.VMap")
    cls = I.global_value(mod, node.name)
    o = I.call(cls, [sym("fn", fixed=1)], {}, None, st)

    class W:
        pass

    w = W()
    w.st = st
    return w, o


def flax_vmap(R, d, take_mean, n, tree=False):
    I = Interp(R.p)
    I.explicit_vmap = I.scalar_items = True
    R.interps.append(I)
    st = S()

    def fn(I2, a, k, s):
        t = [I2.term(x, s) for x in a] + [mk("kw", nm, I2.term(v, s)) for nm, v in sorted(k.items())]
        if tree:
            return I2.alloc(s, PDict({"u": mk("app", "U", *t), "v": Tup([mk("app", "V", *t)])}))
        return mk("app", "FN", *t)

    kw = {} if take_mean is None else {"take_mean": TRUE if take_mean else FALSE}
    s = run_function(R, d, [Py("fn", fn)], kw, I=I, st=st) if d.endswith("create_vmap") else None
    if s is None:
        mod, node = I.p.need(d)
        o, st2 = I.call(I.global_value(mod, node.name), [Py("fn", fn)], kw, None, st), st
    else:
        o, st2 = s.out, s.st
    x, y = Arr([sym(f"x{i}") for i in range(n)]), Arr([sym(f"c{i}") for i in range(n)])
    out = I.call(o, [x], {KWX: y}, None, st2)
    args = [[sym(f"x{i}"), mk("kw", KWX, sym(f"c{i}"))] for i in range(n)]
    red = (lambda xs: mean(xs)) if take_mean in (None, True) else (lambda xs: xs)
    if tree:
        want = {"u": red([mk("app", "U", *a) for a in args]), "v": (red([mk("app", "V", *a) for a in args]),)}
    else:
        want = red([mk("app", "FN", *a) for a in args])
    return eq_struct(R, I, st2, out, want, (), "batched output")


@prop("W45")
def vmaps(R):
    R.total = True
    R.rule("element", "element i of the output is the function applied with the i-th parameters, the i-th state and the i-th inputs; at initialisation parameters and state come from init on the i-th inputs")
    R.rule("state", "the surrounding module receives exactly the stacked successor states")
    R.rule("keys", "with split_rng every element gets its own key, without it none; init_rng selects whether initialisation is given a key; split_rng without init_rng is rejected")
    R.rule("mean", "add_batch averages every output leaf over the batch; VMap and the Flax VMap apply the function per element (averaging with take_mean)")
    w = where_(R, VL)
    for init in (False, True):
        for split in (False, True):
            cfg = {"split_rng": TRUE if split else FALSE}
            for n, kw, tree, it in ((1, False, False, False), (3, True, False, False), (3, False, True, True), (2, True, False, True), (3, "only", True, False)):
                R.ob("element", f"{VL}[init={init},split_rng={split},n={n},kwargs={kw},output tree={tree},input tree={it}]", lambda: lifted(R, VL, cfg, init, kw, tree, it, n)[0], w)
            R.ob("element", f"{VL}[init={init},split_rng={split},outputs of rank 0, 1 and 2]", lambda: lifted(R, VL, cfg, init, False, True, model=Ranks)[0], w)
            R.ob("keys", f"{VL}[init={init},split_rng={split}]", lambda: keys(R, split, init), w)
        R.ob("element", f"{VL}[init={init},defaults]", lambda: lifted(R, VL, {}, init)[0], w)
    R.ob("keys", f"{VL}[init_rng=False]", lambda: noinit(R), w)
    R.ob("keys", f"{VL}[split_rng without init_rng]", lambda: raises(R), w)
    R.control(lambda: lifted(R, VL, {}, False, wrong=True)[0])
    R.ob("element", f"{VL}[initialised with a key,applied without]", lambda: keyless(R, VL, {}, True, False), w)
    R.ob("element", f"{VL}[never a key,init_rng=False]", lambda: keyless(R, VL, {"init_rng": FALSE}, False, False), w)
    d = "wax.modules.vmap.add_batch"
    for ik in (True, False):
        R.ob("mean", f"{d}[{'initialised with a key' if ik else 'never a key'},applied without]", lambda: keyless(R, d, {}, ik, True), where_(R, d))
    for init in (False, True):
        for mean_, tree in ((None, False), (True, True), (False, False), (False, True)):
            cfg = {} if mean_ is None else {"take_mean": TRUE if mean_ else FALSE}
            R.ob("mean", f"{d}[init={init},take_mean={'default' if mean_ is None else mean_},tree={tree}]", lambda: lifted(R, d, cfg, init, False, tree, take_mean=mean_ in (None, True))[0], where_(R, d))
        for mean_, n in ((True, 2), (False, 2), (True, 3)):
            R.missing = OUTS
            R.ob("mean", f"{d}[init={init},take_mean={mean_},outputs of rank 0, 1 and 2,n={n}]", lambda: lifted(R, d, {"take_mean": TRUE if mean_ else FALSE}, init, False, True, n=n, take_mean=mean_, model=Ranks)[0], where_(R, d))
    R.missing = frozenset()
    d = "wax.modules.vmap.VMap"
    R.ob("element", f"{d}[initialised with a key,applied without]", lambda: keyless(R, d, {}, True, False, vmap_module), where_(R, d))
    R.ob("keys", f"{d}[init=True]", lambda: vmap_keys(R, d), where_(R, d))
    for init in (False, True):
        R.ob("element", f"{d}[init={init}]", lambda: lifted(R, d, {}, init, True, call=vmap_module)[0], where_(R, d))
    for d in ("wax.flax.modules.vmap.VMap", "wax.flax.modules.vmap.create_vmap"):
        for mean_ in (None, True, False):
            for tree in (False, True):
                R.ob("mean", f"{d}[take_mean={'default' if mean_ is None else mean_},tree={tree}]", lambda: flax_vmap(R, d, mean_, 3, tree), where_(R, d))
