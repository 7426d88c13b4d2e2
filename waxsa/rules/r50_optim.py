"""Online optimisation: one step of every optimiser module and learner over uninterpreted models, losses and optimisers."""
import re

from . import prop
from ..interp import NTCls, PDict, PInst, PList, Ext
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r40_unroll import FlaxModel, Model, TWS, dict_terms, eq_map, is_none_term

# results of the free functions that may be NaN or infinite
MISSING = frozenset({"LOSS", "RES", "PRED", "AUX"})
OPT = NTCls("GradientTransformation", ("init", "update"))


class Opt:
    """an optax-like optimiser with uninterpreted init/update, acting leaf by leaf"""

    def __init__(self):
        self.calls = []

    def build(self, I, st):
        def init(I2, a, k, s):
            self.calls.append(("init", len(a) + len(k)))
            return mk("app", "OINIT", *self.flat(I2, a[0], s))

        def update(I2, a, k, s):
            a = list(a)
            p = a[2] if len(a) > 2 else k.get("params")
            if p is None:
                p = NONE
            g, o = a[0], I2.term(a[1], s)
            self.calls.append(("update", 2 if is_none_val(p) else 3))
            fl = self.flat(I2, g, s) + self.flat(I2, p, s)
            pl = iter(self.flat(I2, p, s))
            u = I2.models.tree_map(I2, lambda xs: mk("app", "UPD", I2.term(xs[0], s), o, next(pl, NONE)), [g], s)
            return Tup([u, mk("app", "OSTATE", o, *fl)])

        return Tup([Py("init", init), Py("update", update)], "namedtuple", ("init", "update"), OPT)

    @staticmethod
    def flat(I, v, s):
        return [I.term(x, s) for x in I.models.tree_leaves(I, v, s)] if not isinstance(v, T) else [v]


def is_none_val(v):
    return isinstance(v, T) and is_none_term(v)


def stepper(R, dotted, cfg, handlers=None):
    """successive calls of freshly built instances of one module over the same state"""
    I = Interp(R.p)
    I.handlers.update(handlers or {})
    I.init_mode = True
    st = S()
    mod, node = R.p.need(dotted)
    c = I.global_value(mod, node.name)

    def call(args, kw=None):
        I.counters = {}
        v = cfg(I, st) if callable(cfg) else cfg
        inst = I.call(c, [], dict(v), None, st)
        out = I.call(inst, list(args), dict(kw or {}), None, st)
        R.saw(I)
        return out

    return I, st, call


def add(a, b):
    return mk("add", a, b)


# ------------------------------------------------------------------ OptaxOptimizer
def optax_step(R, d, flax, mangle=False):
    o = Opt()
    I, st, call = stepper(R, d, lambda I, st: {"opt": o.build(I, st)})
    r = []
    s = None
    p = sym("p")
    for t in range(3):
        g = sym(f"g{t}")
        out = call([p, g])
        new = I.unpack(out, 2, st)[0] if flax else out
        if s is None:
            s = mk("app", "OINIT", p)
        want = add(p, mk("app", "UPD", g, s, NONE if mangle else p))
        s = mk("app", "OSTATE", s, g, p)
        r.append(eq_struct(R, I, st, new, want, (), f"parameters after step {t + 1}"))
        if r[-1].status != "holds":
            break
        p = want
    return worst(r)


@prop("W50")
def optax_rule(R):
    R.total = True
    R.finite, R.missing = False, MISSING
    R.rule("optimizer-step", "step t: updates, state' = opt.update(gradients, state, current params); returned params = params + updates; the first state is opt.init(params)")
    for d, f in (("wax.modules.optax_optimizer.OptaxOptimizer", False), ("wax.flax.modules.optax_optimizer.OptaxOptimizer", True)):
        R.ob("optimizer-step", d, lambda: optax_step(R, d, f), where_(R, d))
        R.control(lambda: optax_step(R, d, f, True))
    d = "wax.flax.core.streaming_transforms.StreamingOptimizer"
    for aux in (False, True):
        R.ob("streaming-optimizer", f"{d}[has_aux={aux}]", lambda: streaming_opt(R, d, aux), where_(R, d))
    R.control(lambda: streaming_opt(R, d, False, True))
    R.missing = frozenset()
    for aux in (False, True):
        for n, named in ((1, False), (3, False), (2, True)):
            R.ob("streaming-optimizer", f"{d}[has_aux={aux},{n} arguments{' and one by name' if named else ''}]", lambda: streaming_opt(R, d, aux, False, n, named), where_(R, d))
    R.rule("streaming-optimizer", "loss(scale*prediction, target) and its gradient at the current scale; the scale of the next step is the optimiser's step on that gradient; starts at 1")


def streaming_opt(R, d, aux, mangle=False, n=2, named=False):
    """the target is the second argument of the model (the first if there is one only)"""
    o = Opt()
    LOSS = Py("loss", lambda I, a, k, s: mk("app", "LOSS", *[I.term(x, s) for x in a]))
    I, st, call = stepper(R, d, lambda I, st: {"optimizer": o.build(I, st), "loss_fn": LOSS, "has_aux": TRUE if aux else FALSE})
    scale, s = ONE, mk("app", "OINIT", ONE)
    r = []
    for t in range(2):
        x, y = sym(f"x{t}"), sym(f"y{t}")
        given = [x, y, sym(f"z{t}")][:n]
        kws = {"c": sym(f"c{t}")} if named else {}
        y = given[1] if n > 1 else x
        full = given + [mk("kw", "c", v) for v in kws.values()]
        pred, ax = mk("app", "PRED", *full), mk("app", "AUX", *full)

        def model(I, a, k, s):
            q = [I.term(v, s) for v in a] + [mk("kw", n, I.term(v, s)) for n, v in sorted(k.items())]
            return Tup([mk("app", "PRED", *q), mk("app", "AUX", *q)]) if aux else mk("app", "PRED", *q)

        out = call([Py("model", model), *given], kws)
        info, ps = I.unpack(out, 2, st)
        loss = mk("app", "LOSS", mk("mul", pred, scale), y)
        g = mk("grad", loss, scale)
        r.append(eq_struct(R, I, st, info, (loss, pred, ax) if aux else (loss, pred), (), f"result of step {t + 1}"))
        nscale = add(scale, mk("app", "UPD", g, s, scale if not mangle else NONE))
        got = I.getitem(ps, const("scale"), st)
        r.append(eq_struct(R, I, st, got, nscale, (), f"scale after step {t + 1}"))
        s, scale = mk("app", "OSTATE", s, g, scale), nscale
        if any(x.status != "holds" for x in r):
            break
    return worst(r)


# ------------------------------------------------------------------ the Haiku function optimiser
class HkModel:
    """haiku.transform[_with_state](func) for an uninterpreted func"""

    def __init__(self, aux):
        self.aux, self.funcs = aux, []

    def out(self, t):
        return [mk("app", "RES", *t), mk("app", "AUX", *t)] if self.aux else mk("app", "RES", *t)

    def handlers(self):
        def flat(I, a, k, s):
            return [I.term(x, s) for x in a] + [mk("kw", n, I.term(v, s)) for n, v in sorted(k.items())]

        def transform(with_state):
            def f(I, a, k, st):
                self.funcs.append(a[0])

                def init(I2, b, kw, s):
                    t = flat(I2, b[1:], kw, s)
                    p = mk("app", "INITP", *t)
                    return Tup([p, mk("app", "INITS", *t)]) if with_state else p

                def apply(I2, b, kw, s):
                    if not with_state:
                        raise GiveUp("apply of a stateless transform")
                    t = flat(I2, [b[0], b[1], *b[3:]], kw, s)
                    o = self.out(t)
                    return Tup([Tup(o) if isinstance(o, list) else o, mk("app", "STATE", *t)])

                return Tup([Py("init", init), Py("apply", apply)], "namedtuple", ("init", "apply"), TWS)

            return f

        return {"haiku.transform": transform(False), "haiku.transform_with_state": transform(True)}


PREDF = Py("pred", lambda I, a, k, s: mk("app", "PREDICATE", *[I.term(x, s) for x in a]))


def clean_grad(g):
    return mk("nan_to_num", g, ZERO, ZERO, ZERO)


def merged(a, b):
    return mk("app", "MERGE", *sorted((a, b), key=repr))


def func_hk(R, d, aux, fill, mangle=False):
    m = HkModel(aux)
    STEP = Py("opt", lambda I, a, k, s: mk("app", "STEP", *[I.term(x, s) for x in a]))
    F = sym("func", fixed=1)
    cfg = {"func": F, "opt": STEP, "has_aux": TRUE if aux else FALSE, "grads_fill_nan_inf": TRUE if fill else FALSE, "params_predicate": PREDF}
    I, st, call = stepper(R, d, cfg, m.handlers())
    r = []
    PRED = I.term(PREDF, st)
    t, n, s = None, None, None
    for i in range(2):
        x, c = sym(f"x{i}"), sym(f"c{i}")
        out = call([x], {"c": c})
        if i == 0:
            ini = [x, mk("kw", "c", c)]
            P = mk("app", "INITP", *ini)
            t, n, s = mk("app", "PART_TRUE", PRED, P), mk("app", "PART_FALSE", PRED, P), mk("app", "INITS", *ini)
            params = P
        else:
            params = merged(t, n)
        full = [params, s, x, mk("kw", "c", c)]
        res = m.out(full)
        loss = res[0] if aux else res
        g = mk("grad", loss, t)
        if fill != mangle:
            g = clean_grad(g)
        t = mk("app", "STEP", t, g)
        s = mk("app", "STATE", *full)
        r.append(eq_struct(R, I, st, out, (tuple(res) if aux else res, t), (), f"(result, trainable params) of step {i + 1}"))
        if r[-1].status != "holds":
            break
    if any(f is not F for f in m.funcs):
        r.append(undecided("another function than the given one is transformed"))
    return worst(r)


def update_hk(R, d, mangle=False):
    m = HkModel(False)
    F = sym("func", fixed=1)
    I, st, call = stepper(R, d, {"func": F, "params_predicate": PREDF}, m.handlers())
    PRED = I.term(PREDF, st)
    r, n, s = [], None, None
    for i in range(3):
        tr, x, c = sym(f"trainable{i}"), sym(f"x{i}"), sym(f"c{i}")
        out = call([tr, x], {"c": c})
        if i == 0:
            ini = [x, mk("kw", "c", c)]
            n, s = mk("app", "PART_FALSE", PRED, mk("app", "INITP", *ini)), mk("app", "INITS", *ini)
        full = [merged(tr, n), s, x, mk("kw", "c", c)]
        if not mangle:
            s = mk("app", "STATE", *full)
        r.append(eq_struct(R, I, st, out, m.out(full), (), f"result of step {i + 1}"))
        if r[-1].status != "holds":
            break
    if any(f is not F for f in m.funcs):
        r.append(undecided("another function than the given one is transformed"))
    return worst(r)


def init_params(R, d, pred):
    m = HkModel(False)
    I = Interp(R.p)
    R.interps.append(I)
    I.init_mode = True
    st = S()
    for k, h in m.handlers().items():
        I.handlers[k] = h
    x, c = sym("x"), sym("c")
    out = run_function(R, d, [sym("func", fixed=1), x], {"params_predicate": PREDF if pred else NONE, "c": c}, I=I, st=st)
    p = mk("app", "INITP", x, mk("kw", "c", c))
    return eq_struct(R, I, out.st, out.out, mk("app", "PART_TRUE", I.term(PREDF, out.st), p) if pred else p, (), "initial trainable parameters")


def partition_flax(R, d, leaves, kind, mangle=False):
    """the trainable leaves, the others, and all of them after merging"""
    net = FlaxNet(0, leaves)
    leaf = lambda k: mk("app", "INIT_P", const(SEP.join(k)))
    got = {}
    take = lambda k: {"some": k[-1] == "w", "none": False, "all": True}[kind]

    def pred(I, a, k, s):
        return TRUE if {"some": I.pyval(a[1]) == "w", "none": False, "all": True}[kind] else FALSE

    def setup(I, st, args, kw, cfg):
        p = net.tree(I, st, leaf)
        return [p], {}, {"fun": Py("fun", lambda I, a, k, s: a[0]), "predicate": Py("pred", pred)}

    s = run_module(R, d, {}, [NONE], {}, setup=setup, method="partition_params")
    I, st = s.I, s.st
    t, n = I.unpack(s.out, 2, st)
    want_t = {k: leaf(k) for k in leaves if take(k) != mangle}
    want_n = {k: leaf(k) for k in leaves if not take(k)}

    def setup2(I2, st2, args, kw, cfg):
        tree = lambda ks: FlaxNet(0, ks).tree(I2, st2, leaf) if ks else I2.alloc(st2, PDict({}))
        return [tree(tuple(k for k in leaves if take(k))), tree(tuple(k for k in leaves if not take(k)))], {}, {"fun": Py("fun", lambda I, a, k, s: a[0])}

    m = run_module(R, d, {}, [NONE, NONE], {}, setup=setup2, method="merge_params")
    res = []
    for st_, I_, v, w, what in ((st, I, t, want_t, "trainable parameters"), (st, I, n, want_n, "other parameters"), (m.st, m.I, m.out, {k: leaf(k) for k in leaves}, "merged parameters")):
        f = {}

        def walk(v, at):
            p = I_.get(st_, v) if isinstance(v, Ref) else None
            if isinstance(p, PDict):
                if p.rest is not None:
                    raise GiveUp("an open mapping")
                for q, x in p.d.items():
                    walk(x, at + (q,))
            elif isinstance(v, T):
                f[at] = v
            else:
                raise GiveUp(f"{what} are not a mapping")
        walk(v, ())
        if set(f) != set(w):
            res.append(violated(f"{what}: {sorted(map(SEP.join, f))}, required {sorted(map(SEP.join, w))}"))
        else:
            res += [eq_struct(R, I_, st_, f[k], w[k], (), f"{what}, {SEP.join(k)}") for k in w]
    return worst(res)


@prop("W51")
def func_rule(R):
    R.total = True
    R.finite, R.missing = False, MISSING
    R.rule("func-step", "each call: result of the function at the current parameters and its gradient w.r.t. the trainable ones; new trainable = opt(trainable, gradient); non-trainable parameters never change; the function's own state is threaded")
    d = "wax.modules.func_optimizer.FuncOptimizer"
    for aux in (False, True):
        for fill in (False, True):
            R.ob("func-step", f"{d}[has_aux={aux},grads_fill_nan_inf={fill}]", lambda: func_hk(R, d, aux, fill), where_(R, d))
    R.control(lambda: func_hk(R, d, False, False, True))
    R.rule("update-params", "UpdateParams: the function at the given trainable parameters merged with its own non-trainable ones, its state threaded from call to call; get_init_params gives the trainable part of its initial parameters")
    d3 = "wax.modules.update_params.UpdateParams"
    R.ob("update-params", d3, lambda: update_hk(R, d3), where_(R, d3))
    R.control(lambda: update_hk(R, d3, True))
    d3 = "wax.modules.update_params.get_init_params"
    for pred in (True, False):
        R.ob("update-params", f"{d3}[{'predicate' if pred else 'no predicate'}]", lambda: init_params(R, d3, pred), where_(R, d3))
    d2 = FX + "func_optimizer.FuncOptimizer"
    R.missing = frozenset()    # (only the gradients may be NaN or infinite: fewer cases to tell apart)
    for aux in (False, True):
        for partial in (False, True):
            R.ob("func-step", f"{d2}[has_aux={aux},{'some' if partial else 'all'} trainable]", lambda: func_flax(R, d2, aux, partial), where_(R, d2))
    R.ob("func-step", f"{d2}[names with slashes]", lambda: func_flax(R, d2, 1, True, leaves=SLASH), where_(R, d2))
    d4 = FX + "update_params.UpdateParams"
    R.rule("partition", "UpdateParams.partition_params separates the trainable parameters from the others, leaving names and values; merge_params puts them together again")
    for nm, lv in (("", FlaxNet.LEAVES), ("deeper modules", DEEP), ("names with slashes", SLASH)):
        for kind in ("some", "none", "all"):
            R.ob("partition", f"{d4}[{kind}{',' if nm else ''}{nm}]", lambda: partition_flax(R, d4, lv, kind), where_(R, d4))
    R.control(lambda: partition_flax(R, d4, FlaxNet.LEAVES, "some", True))
    R.ob("func-step", f"{d2}[three results]", lambda: func_flax(R, d2, 2, True), where_(R, d2))
    R.ob("func-step", f"{d2}[deeper modules]", lambda: func_flax(R, d2, 1, True, leaves=DEEP), where_(R, d2))
    R.control(lambda: func_flax(R, d2, False, True, True))


# ------------------------------------------------------------------ online optimisers
def online_hk(R, d, reg, proj, ret, pair=False, mangle=False):
    m = HkModel(True)
    app = lambda n: Py(n.lower(), lambda I, a, k, s: mk("app", n, *[I.term(x, s) for x in a]))
    STEP, REG = app("STEP"), app("REG")
    PROJ = Py("project", lambda I, a, k, s: mk("app", "PROJ", I.term(a[0], s)))
    F = sym("func", fixed=1)
    H = m.handlers()

    def cfg(I, st):
        c = {"model": F, "opt": STEP, "params_predicate": PREDF}
        if pair:
            c["model"] = H["haiku.transform_with_state"](I, [F], {}, st)
        if reg:
            c["regularize_loss"] = REG
        if proj:
            c["project_params"] = PROJ
        if ret:
            c["return_params"] = TRUE
        return c

    # the given pair counts as a haiku.TransformedWithState, the given optimiser as a module
    def isinst(I, a, k, s):
        return TRUE if pair and isinstance(a[0], Tup) and isinstance(a[1], Ext) and "Transformed" in a[1].name else FALSE

    H2 = dict(H)
    H2["builtins.isinstance"] = isinst
    I, st, call = stepper(R, d, cfg, H2)
    PRED = I.term(PREDF, st)
    r = []
    t = n = s = None
    for i in range(2):
        x, c = sym(f"x{i}"), sym(f"c{i}")
        out = call([x], {"c": c})
        if i == 0:
            ini = [x, mk("kw", "c", c)]
            P = mk("app", "INITP", *ini)
            t, n, s = mk("app", "PART_TRUE", PRED, P), mk("app", "PART_FALSE", PRED, P), mk("app", "INITS", *ini)
            params = P
        else:
            params = merged(t, n)
        full = [params, s, x, mk("kw", "c", c)]
        loss, info = m.out(full)
        if reg:
            loss = add(loss, mk("app", "REG", t))
        g = mk("nan_to_num", mk("grad", loss, t), ZERO, None, None)
        t = mk("app", "STEP", t, g)
        if proj:
            t = mk("app", "PROJ", t)
        s = mk("app", "STATE", *full)
        want = [loss, info] + ([merged(t, n)] if ret else [])
        if mangle:
            want[0] = mk("app", "STEP", want[0])
        r.append(eq_struct(R, I, st, out, tuple(want), (), f"(loss, model info{', updated parameters' if ret else ''}) of step {i + 1}"))
        if r[-1].status != "holds":
            break
    return worst(r)


SEP = " > "
SLASH = (("net/~/lin_0", "w"), ("net/~/lin_0", "b"), ("net/~/lin_1", "w"))    # (names given by Haiku to nested modules)


class FlaxNet:
    """a Flax-like module with parameters a/w, a/b and c/w; init and apply uninterpreted"""
    LEAVES = (("a", "w"), ("a", "b"), ("c", "w"))

    def __init__(self, aux, leaves=None):
        self.aux, self.leaves = aux, leaves or self.LEAVES

    def tree(self, I, s, f, at=()):
        n = len(at)
        names = list(dict.fromkeys(k[n] for k in self.leaves if k[:n] == at))
        return I.alloc(s, PDict({m: f(at + (m,)) if at + (m,) in self.leaves else self.tree(I, s, f, at + (m,)) for m in names}))

    def init_leaf(self, k, t):
        return mk("app", "INIT_" + re.sub(r"\W+", "_", "_".join(k)).upper(), *t)

    def flat(self, I, s, v):
        out = {}

        def walk(v, at):
            p = I.get(s, v) if isinstance(v, Ref) else None
            if isinstance(p, PDict) and p.rest is None:
                for m, x in p.d.items():
                    walk(x, at + (m,))
            elif len(at) < 2 or isinstance(v, Ref):
                raise GiveUp("parameters handed over are not an explicit mapping")
            else:
                out[SEP.join(at)] = I.term(v, s)

        walk(v, ())
        return [mk("kw", k, out[k]) for k in sorted(out)]

    def result(self, params, t):
        full = params + t
        r = [mk("app", "RES", *full), mk("app", "AUX", *full), mk("app", "MORE", *full)]
        return r[:1 + self.aux] if self.aux else r[0]

    def build(self, I, st):
        def args(a, k, s):
            return [I.term(x, s) for x in a] + [mk("kw", n, I.term(v, s)) for n, v in sorted(k.items())]

        def init(I2, a, k, s):
            t = args(a[1:], k, s)
            return I2.alloc(s, PDict({"params": self.tree(I2, s, lambda k: self.init_leaf(k, t))}))

        def apply(I2, a, k, s):
            v = I2.get(s, a[0]) if isinstance(a[0], Ref) else None
            if not isinstance(v, PDict) or set(v.d) != {"params"}:
                raise GiveUp("variables handed to the model")
            o = self.result(self.flat(I2, s, v.d["params"]), args(a[1:], k, s))
            return Tup(o) if isinstance(o, list) else o

        return Tup([Py("init", init), Py("apply", apply)], "namedtuple", ("init", "apply"), NTCls("module", ("init", "apply")))


def train_predicate():
    return Py("pred", lambda I, a, k, s: TRUE if I.pyval(a[1]) == "w" else FALSE)


def ordered(ts):
    return sorted(ts, key=repr)


def plain_results(I, a, k, s):
    """the model's results are arrays, not tuples"""
    if isinstance(a[0], T) and a[0].op == "app" and a[0].args[0] == "RES":
        return FALSE
    return I.models.b_isinstance(I, a, k, s)


class LeafOpt:
    """an optax-like optimiser whose update is UPD(gradient, parameter) leaf by leaf with a state"""

    def build(self, I, st):
        def init(I2, a, k, s):
            return mk("app", "OINIT", *ordered([I2.term(x, s) for x in I2.models.tree_leaves(I2, a[0], s)]))

        def update(I2, a, k, s):
            p = a[2] if len(a) > 2 else k.get("params")
            o = I2.term(a[1], s)
            if p is None or is_none_val(p):
                u = I2.models.tree_map(I2, lambda xs: mk("app", "UPD", I2.term(xs[0], s), o, NONE), [a[0]], s)
            else:
                u = I2.models.tree_map(I2, lambda xs: mk("app", "UPD", I2.term(xs[0], s), o, I2.term(xs[1], s)), [a[0], p], s)
            return Tup([u, mk("app", "OSTATE", o, *ordered([I2.term(x, s) for x in I2.models.tree_leaves(I2, a[0], s)]))])

        return Tup([Py("init", init), Py("update", update)], "namedtuple", ("init", "update"), OPT)


def train_spec(net, x_args, steps, fill, partial, reg=None, loss_of=None, proj=None):
    """the reference run: [(loss, aux, params before, params after)] per step"""
    cur = {k: net.init_leaf(k, x_args[0]) for k in net.leaves}
    train = [k for k in net.leaves if not partial or k[-1] == "w"]
    res = []
    o = mk("app", "OINIT", *ordered([cur[k] for k in train]))
    for i in range(steps):
        ps = named(cur)
        out = net.result(ps, x_args[i])
        loss, aux = (out[0], out[1] if net.aux == 1 else tuple(out[1:])) if net.aux else (out, None)
        if loss_of:
            loss, aux = loss_of(out, x_args[i], i)
        if reg:
            loss = reg(loss, cur, aux)
        g = {k: fill(mk("grad", loss, cur[k])) for k in train}
        new = dict(cur)
        for k in train:
            new[k] = add(cur[k], mk("app", "UPD", g[k], o, cur[k]))
        if proj:
            new.update(proj({k: new[k] for k in train}))
        o = mk("app", "OSTATE", o, *ordered([g[k] for k in train]))
        res.append((loss, aux, cur, new))
        cur = new
    return res


def named(cur):
    """the parameters as named arguments, in the order of their full names"""
    return [mk("kw", n, v) for n, v in sorted((SEP.join(k), v) for k, v in cur.items())]


def nested(cur):
    d = {}
    for k, v in cur.items():
        at = d
        for m in k[:-1]:
            at = at.setdefault(m, {})
        at[k[-1]] = v
    return d


FILL0 = clean_grad
FILLBIG = lambda g: mk("nan_to_num", g, ZERO, None, None)


DEEP = (("a", "in", "w"), ("a", "b"), ("c", "w", "x"))


def func_flax(R, d, aux, partial, mangle=False, leaves=None):
    net = FlaxNet(aux, leaves)

    def cfg(I, st):
        c = {"fun": net.build(I, st), "opt": LeafOpt().build(I, st), "has_aux": TRUE if aux else FALSE}
        if partial:
            c["params_predicate"] = train_predicate()
        return c

    I, st, call = stepper(R, d, cfg, {"builtins.isinstance": plain_results})
    xs = [[sym(f"x{i}"), mk("kw", "c", sym(f"c{i}"))] for i in range(2)]
    ref = train_spec(net, xs, 2, (lambda g: g) if mangle else FILL0, partial)
    r = []
    for i in range(2):
        out = call([sym(f"x{i}")], {"c": sym(f"c{i}")})
        res = I.unpack(out, 3, st)[0]
        loss, ax, _, _ = ref[i]
        r.append(eq_struct(R, I, st, res, (loss, ax) if aux else loss, (), f"result of step {i + 1}"))
        if r[-1].status != "holds":
            break
    return worst(r)


def online_flax(R, d, aux, partial, reg, proj, mangle=False, leaves=None):
    net = FlaxNet(aux, leaves)
    REG = lambda I, a, k, s: mk("app", "REG", I.term(a[0], s), *net.flat(I, s, a[1]))

    def PROJ(I, a, k, s):
        # a projection may look at all trainable parameters together (a common norm, say)
        if isinstance(a[0], T):
            return mk("app", "PROJ", "", a[0])    # (of a single leaf)
        t = net.flat(I, s, a[0])
        per = {x.args[0]: mk("app", "PROJ", x.args[0], *t) for x in t}
        keys = [q for q in net.leaves if SEP.join(q) in per]
        return FlaxNet(0, tuple(keys)).tree(I, s, lambda q: per[SEP.join(q)])

    def cfg(I, st):
        c = {"model": net.build(I, st), "opt": LeafOpt().build(I, st)}
        if partial:
            c["params_predicate"] = train_predicate()
        if reg:
            c["regularize_loss"] = Py("reg", REG)
        if proj:
            c["project_params"] = Py("proj", PROJ)
        return c

    I, st, call = stepper(R, d, cfg, {"builtins.isinstance": plain_results})
    xs = [[sym(f"x{i}"), mk("kw", "c", sym(f"c{i}"))] for i in range(2)]
    rg = (lambda l, cur, a: mk("app", "REG", l, *named(cur))) if reg else None
    ref = train_spec(net, xs, 2, (lambda g: g) if mangle else FILLBIG, partial, rg, proj=(lambda cur: {k: mk("app", "PROJ", SEP.join(k), *named(cur)) for k in cur}) if proj else None)
    r = []
    for i in range(2):
        out = call([sym(f"x{i}")], {"c": sym(f"c{i}")})
        loss, ax, _, new = ref[i]
        r.append(eq_struct(R, I, st, I.getattr(out, "loss", st), loss, (), f"loss of step {i + 1}"))
        if aux:
            r.append(eq_struct(R, I, st, I.getattr(out, "aux", st), ax, (), f"aux of step {i + 1}"))
        r.append(eq_struct(R, I, st, I.getattr(out, "params", st), nested(new), (), f"parameters after step {i + 1}"))
        if any(x.status != "holds" for x in r):
            break
    return worst(r)


FX = "wax.flax.modules."


@prop("W52")
def online_rule(R):
    R.total = True
    R.finite, R.missing = False, MISSING
    R.rule("online-step", "each call: loss (plus regularisation) and info of the model at the parameters before the update; gradient w.r.t. the trainable ones with NaN removed; optimiser step, then projection; all parameters reported, non-trainable ones unchanged; model state threaded")
    d = "wax.modules.online_optimizer.OnlineOptimizer"
    for reg in (False, True):
        for proj in (False, True):
            for ret in (False, True):
                R.ob("online-step", f"{d}[regularize={reg},project={proj},return_params={ret}]", lambda: online_hk(R, d, reg, proj, ret), where_(R, d))
    R.ob("online-step", f"{d}[transformed model]", lambda: online_hk(R, d, False, False, True, True), where_(R, d))
    R.control(lambda: online_hk(R, d, False, False, False, False, True))
    d2 = FX + "online_optimizer.OnlineOptimizer"
    for aux in (False, True):
        for partial in (False, True):
            R.missing = MISSING if partial else frozenset()    # (fewer cases where there are three gradients)
            R.ob("online-step", f"{d2}[aux={aux},{'some' if partial else 'all'} trainable]", lambda: online_flax(R, d2, aux, partial, False, False), where_(R, d2))
    R.missing = MISSING
    R.ob("online-step", f"{d2}[regularize]", lambda: online_flax(R, d2, False, True, True, False), where_(R, d2))
    R.missing = frozenset()
    R.ob("online-step", f"{d2}[project]", lambda: online_flax(R, d2, True, True, False, True), where_(R, d2))
    R.ob("online-step", f"{d2}[names with slashes]", lambda: online_flax(R, d2, 1, True, False, False, leaves=SLASH), where_(R, d2))
    R.ob("online-step", f"{d2}[three results]", lambda: online_flax(R, d2, 2, True, False, False), where_(R, d2))
    R.ob("online-step", f"{d2}[deeper modules]", lambda: online_flax(R, d2, 1, True, True, True, leaves=DEEP), where_(R, d2))
    R.control(lambda: online_flax(R, d2, True, False, False, False, True))


# ------------------------------------------------------------------ supervised learners
def learner_hk(R, d, fill, mangle=False, **kind):
    cur = []

    def transform(with_state):
        def f(I, a, k, st):
            fn = a[0]

            def init(I2, b, kw, s):
                t = [I2.term(x, s) for x in b[1:]]
                p = mk("app", "INITP", *t)
                return Tup([p, mk("app", "INITS", *t)]) if with_state else p

            def apply(I2, b, kw, s):
                cur.append((I2.term(b[0], s), I2.term(b[1], s)))
                try:
                    r = I2.call(fn, b[3:], kw, None, s)
                finally:
                    c = cur.pop()
                return Tup([r, mk("app", "STATE", *c, *[I2.term(x, s) for x in b[3:]])])

            return Tup([Py("init", init), Py("apply", apply)], "namedtuple", ("init", "apply"), TWS)

        return f

    app = lambda n: Py(n.lower(), lambda I, a, k, s: mk("app", n, *[I.term(x, s) for x in a]))

    def model(I, a, k, s):
        if not cur:
            raise GiveUp("model called outside of a transformed function")
        return mk("app", "PREDICT", *cur[-1], *[I.term(x, s) for x in a])

    cfg = {"model": Py("model", model), "opt": app("STEP"), "loss": app("LOSS"), "grads_fill_nan_inf": TRUE if fill else FALSE}
    I, st, call = stepper(R, d, cfg, {"haiku.transform": transform(False), "haiku.transform_with_state": transform(True), "builtins.isinstance": lambda I, a, k, s: FALSE})
    r = []
    t = None
    for i in range(2):
        x, y = sym(f"x{i}"), sym(f"y{i}", **kind)
        out = call([x, y])
        if i == 0:
            P = mk("app", "INITP", x, y)
            PRED = mk("app", "PASS")
            s = mk("app", "INITS", x, y)
        params = P if i == 0 else None
        y_pred, info = I.unpack(out, 2, st)
        if i == 0:
            pred = mk("app", "PREDICT", P, s, x)
            loss = mk("app", "LOSS", pred, y) if mangle else mk("app", "LOSS", y, pred)
            r.append(eq_pred(R, I, st, y_pred, pred, "prediction of step 1"))
            r.append(eq_struct(R, I, st, I.getattr(info, "loss", st), loss, (), "loss of step 1"))
            got = I.term(I.getattr(info, "params", st), st)
            part = [u for u in subterms(got) if u.op == "app" and u.args[0] == "PART_TRUE" and u.args[2] is P]
            t0 = part[0] if part else P
            g = mk("grad", loss, t0)
            t = mk("app", "STEP", t0, clean_grad(g) if fill else g)
            r.append(eq_struct(R, I, st, got, t, (), "parameters after step 1"))
            n = mk("app", "PART_FALSE", *t0.args[1:]) if part else None
            s = mk("app", "STATE", P, s, x, y)
        else:
            params = merged(t, n) if n is not None else t
            pred = mk("app", "PREDICT", params, s, x)
            r.append(eq_pred(R, I, st, y_pred, pred, "prediction of step 2 (parameters after step 1)"))
        if any(q.status != "holds" for q in r):
            break
    return worst(r)


def eq_pred(R, I, st, got, want, label):
    """predictions may be NaN, too"""
    old = R.missing
    R.missing = old | {"PREDICT", "RES"}
    try:
        return eq_struct(R, I, st, got, want, (), label)
    finally:
        R.missing = old


class CallNet(FlaxNet):
    """the same network, also callable as a submodule of the surrounding module"""

    def build(self, I, st):
        v = super().build(I, st)
        v.on_call = lambda I2, a, k, s: mk("app", "RES", mk("obj", "parameters of the surrounding module"), *[I2.term(x, s) for x in a])
        return v


def learner_flax(R, d, partial, simple, mangle=False, **kind):
    Y = lambda i: sym(f"y{i}", **kind)
    net = CallNet(False)
    LOSS = Py("loss", lambda I, a, k, s: mk("app", "LOSS", *[I.term(x, s) for x in a]))

    def cfg(I, st):
        c = {"model": net.build(I, st), "opt": LeafOpt().build(I, st), "loss_fn": LOSS}
        if partial:
            c["params_predicate"] = train_predicate()
        return c

    I, st, call = stepper(R, d, cfg, {"builtins.isinstance": plain_results})
    xs = [[sym(f"x{i}")] for i in range(2)]
    lo = lambda out, x, i: (mk("app", "LOSS", *((Y(i), out) if mangle else (out, Y(i)))), out)
    ref = train_spec(net, xs, 2, FILL0, partial, loss_of=lo)
    r = []
    for i in range(2):
        out = call([sym(f"x{i}"), Y(i)])
        pred, info = I.unpack(out, 2, st)
        loss, p, _, _ = ref[i]
        r.append(eq_pred(R, I, st, pred, p, f"prediction of step {i + 1}"))
        r.append(eq_struct(R, I, st, info if simple else I.getitem(info, const("loss"), st), loss, (), f"loss of step {i + 1}"))
        if any(q.status != "holds" for q in r):
            break
    return worst(r)


@prop("W53")
def learner_rule(R):
    R.total = True
    R.finite, R.missing = False, frozenset({"LOSS"})
    R.rule("predict-then-learn", "step t returns the prediction and the loss of the parameters learned from the steps before t, then updates them on this step's gradient")
    d = "wax.modules.online_supervised_learner.OnlineSupervisedLearner"
    for fill in (False, True):
        R.ob("predict-then-learn", f"{d}[grads_fill_nan_inf={fill}]", lambda: learner_hk(R, d, fill), where_(R, d))
    for kind in ("int32", "bool", "float32"):
        R.ob("predict-then-learn", f"{d}[targets of type {kind}]", lambda: learner_hk(R, d, True, dtype=kind), where_(R, d))
    R.control(lambda: learner_hk(R, d, True, True))
    d2 = FX + "online_supervised_learner.OnlineSupervisedLearner"
    for partial in (False, True):
        R.ob("predict-then-learn", f"{d2}[{'some' if partial else 'all'} trainable]", lambda: learner_flax(R, d2, partial, False), where_(R, d2))
    for kind in ("int32", "bool", "float32"):
        R.ob("predict-then-learn", f"{d2}[targets of type {kind}]", lambda: learner_flax(R, d2, False, False, dtype=kind), where_(R, d2))
    R.control(lambda: learner_flax(R, d2, False, False, True))
    d3 = FX + "online_supervised_learner.SimpleOnlineLearner"
    R.ob("predict-then-learn", d3, lambda: learner_flax(R, d3, False, True), where_(R, d3))
