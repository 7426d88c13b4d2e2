"""Factory functions and state decorators hand every option on unchanged."""
import ast
from . import prop
from .r10_windows import where_
from ..judge import *
from ..interp import Arr, Cls, Ext, Func, Interp, PInst, Py, Ref, S, Tup
from ..terms import *


def factories(R):
    """public functions create_* of wax.flax.modules annotated with a class of their own module"""
    for name, mod in sorted(R.p.modules.items()):
        if not name.startswith("wax.flax.modules.") or name.endswith("_test"):
            continue
        classes = {n.name for n in mod.tree.body if isinstance(n, ast.ClassDef)}
        for n in mod.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith("create_") and isinstance(n.returns, ast.Name) and n.returns.id in classes:
                yield mod, n, n.returns.id


# parameters whose place in the module has another name
RENAMED = {}


def value(I, ref, st, name):
    p = I.get(st, ref) if isinstance(ref, Ref) else None
    if not isinstance(p, PInst):
        raise GiveUp(f"factory returns {ref}")
    return p.attrs.get(name)


def created(R, mod, fn, cname, wrong=False):
    """every option given by name arrives in the field of that name"""
    I, st = Interp(R.p), S()
    R.interps.append(I)
    c = I.global_value(mod, cname)
    f = I.global_value(mod, fn.name)
    fields = I.dc_fields(c)
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.kwarg:
        names += [k for k in fields if k not in names and k not in ("name", "parent")]
        if "com" in names and "alpha" in names:
            names.remove("alpha")
    kw = {n: sym(f"given_{n}", fixed=1, pos=True) for n in names}
    inst = I.call(f, [], kw, None, st)
    if not (isinstance(inst, Ref) and isinstance(I.get(st, inst), PInst) and I.get(st, inst).cls.node.name == cname):
        return violated(f"{fn.name} returns {inst} instead of a {cname}") if isinstance(inst, Ref) and isinstance(I.get(st, inst), PInst) else undecided(f"{fn.name} returns {inst}")
    rs = []
    for n in names:
        if n not in fields:
            continue
        got = value(I, inst, st, n)
        want = sym("something else") if wrong else kw[n]
        r = eq_struct(R, I, st, got if got is not None else NONE, want, [], f"field {n} of {cname} after {fn.name}({n}=...)")
        rs.append(r)
    # fields that the factory has no parameter for keep the class default
    ref = I.call(c, [], {n: kw[n] for n in names if n in fields}, None, st)
    for n in fields:
        if n in names:
            continue
        x, y = value(I, inst, st, n), value(I, ref, st, n)
        if x is None or y is None:
            continue
        rs.append(eq_struct(R, I, st, x, y, [], f"field {n} of {cname}, which {fn.name} does not take"))
    return worst(rs) if rs else holds("no options")


def defaults(R, mod, fn, cname):
    """options left out have the default of the class"""
    I, st = Interp(R.p), S()
    R.interps.append(I)
    c = I.global_value(mod, cname)
    fields = I.dc_fields(c)
    a = fn.args
    pos = a.posonlyargs + a.args
    req = [x.arg for x in pos[:len(pos) - len(a.defaults)]] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    opt = [x.arg for x in pos + a.kwonlyargs if x.arg not in req]
    need = [n for n, (d, k) in fields.items() if d is None and n not in ("name", "parent")]
    kw = {n: sym(f"given_{n}", fixed=1, pos=True) for n in dict.fromkeys(req + need)}
    if "com" in fields and "com" not in kw:
        kw["com"] = sym("given_com", fixed=1, pos=True)
    inst = I.call(I.global_value(mod, fn.name), [], dict(kw), None, st)
    ref = I.call(c, [], {n: v for n, v in kw.items() if n in fields}, None, st)
    rs = []
    for n in opt:
        if n in fields and n not in kw:
            x, y = value(I, inst, st, n), value(I, ref, st, n)
            if isinstance(x, (Func, Cls, Ext)) and x is y or x is y is None:
                continue
            rs.append(eq_struct(R, I, st, x if x is not None else NONE, y if y is not None else NONE, [], f"default of {n}"))
    return worst(rs) if rs else holds("no optional parameter")


CB, ASP = "wax.flax.modules.compressed_buffer", "wax.flax.core.advanced_state_patterns"
# decorator, module class, {decorator option: module field}, how the module is called
DECOS = [
    (CB, "streaming_compressed_memory", "CompressedBuffer", {"maxlen": "maxlen", "compression": "compression", "compression_params": "compression_params"}, "first"),
    (CB, "streaming_hierarchical_memory", "HierarchicalBuffer", {k: k for k in ("recent_maxlen", "medium_maxlen", "long_maxlen", "medium_compression", "long_compression")}, "first"),
    (ASP, "streaming_state_machine", "HierarchicalStateMachine", {k: k for k in ("state_modules", "dependencies", "coordination_strategy")}, "all"),
    (ASP, "streaming_attention_state", "AttentionBasedStateSelector", {"embed_dim": "embed_dim", "num_heads": "num_heads", "max_history": "max_history_length"}, "first"),
    (ASP, "streaming_compose_states", "CompositeStateManager", {"strategy": None}, "first"),
]


def decorated(R, modname, deco, cname, opts, how, given, nargs, wrong=False):
    I, st = Interp(R.p), S()
    R.interps.append(I)
    R.p.need(f"{modname}.{deco}")
    mod = R.p.modules[modname]
    built, calls, fns = [], [], []

    def build(I2, c, args, kwargs, s):
        ref = I2.construct(c, list(args), dict(kwargs), s)
        built.append((ref, s))

        def run(I3, a, k, s3):
            calls.append((list(a), dict(k)))
            return mk("app", "MEMORY", *[I3.term(x, s3) for x in a])

        return Py(cname, run)

    I.class_models = {f"{modname}.{cname}": build}
    I.gcache[(mod.name, "streaming_transform_with_state")] = Py("streaming_transform_with_state", lambda I2, a, k, s: a[0])
    pats = [sym(f"module{i}", fixed=1) for i in range(2)]
    pos = pats if deco == "streaming_compose_states" else []
    kw = {n: sym(f"given_{n}", fixed=1) for n in given}
    d = I.call(I.global_value(mod, deco), list(pos), dict(kw), None, st)

    def user(I2, a, k, s):
        fns.append((list(a), dict(k)))
        return mk("app", "RESULT")

    w = I.call(d, [Py("fn", user)], {}, None, st)
    args = [sym(f"x{i}") for i in range(nargs)]
    kws = {"extra": sym("extra")}
    out = I.call(w, list(args), dict(kws), None, st)
    if len(built) != 1 or len(calls) != 1:
        return undecided(f"{len(built)} modules, {len(calls)} calls of the module")
    ref, s = built[0]
    attrs = I.get(s, ref).attrs if isinstance(I.get(s, ref), PInst) else {}
    rs = []
    c = I.global_value(mod, cname)
    if deco == "streaming_compose_states":
        got = next((v for v in attrs.values() if isinstance(v, Ref)), None)
        items = list(I.get(st, got).d.values()) if got is not None and hasattr(I.get(st, got), "d") else None
        if items is None:
            return undecided("state patterns not found")
        rs.append(eq_struct(R, I, st, Tup(items), pats, [], "the composed modules in the given order"))
        if "strategy" in kw:
            strat = [v for v in attrs.values() if isinstance(v, T)]
            if kw["strategy"] not in strat and not wrong:
                rs.append(violated(f"the strategy given to {deco} does not arrive in {cname}: fields {[show(v) for v in strat]}"))
            if wrong:
                rs.append(violated("control"))
    else:
        for n, field in opts.items():
            if n in kw:
                rs.append(eq_struct(R, I, st, attrs.get(field, NONE), sym("something else") if wrong else kw[n], [], f"field {field} of {cname} for {deco}({n}=...)"))
    # the module sees the first argument (or all arguments)
    a, k = calls[0]
    want = args if how == "all" else args[:1]
    rs.append(eq_struct(R, I, st, Tup(a), want, [], f"arguments of {cname}"))
    if len(fns) != 1:
        return undecided(f"{len(fns)} calls of the function")
    fa, fk = fns[0]
    mem = mk("app", "MEMORY", *[I.term(x, st) for x in a])
    rs.append(eq_struct(R, I, st, Tup(fa), [mem] + args, [], "positional arguments of the decorated function"))
    rs.append(eq_struct(R, I, st, fk.get("extra", NONE), kws["extra"], [], "keyword argument of the decorated function"))
    rs.append(eq_struct(R, I, st, out, mk("app", "RESULT"), [], "result"))
    return worst(rs)


STREAM = "wax.flax.core.streaming_transforms"
# decorators whose module receives the decorated function: (decorator, module class, options, does the module take the function as its first argument)
HANDED = [
    ("update_on_event", "ConditionalComputation", ("event_fn", "initial_output_value"), False),
    ("streaming_optimizer", "StreamingOptimizer", ("optimizer", "loss_fn", "has_aux"), True),
]


def handed(R, deco, cname, opts, first, given, wrong=False):
    """the module is built with the given options (class defaults otherwise) and called with all arguments"""
    I, st = Interp(R.p), S()
    R.interps.append(I)
    R.p.need(f"{STREAM}.{deco}")
    mod = R.p.modules[STREAM]
    built, calls = [], []

    def build(I2, c, args, kwargs, s):
        built.append((I2.construct(c, list(args), dict(kwargs), s), s))

        def run(I3, a, k, s3):
            calls.append((list(a), dict(k)))
            return Tup([mk("app", "INFO"), mk("app", "PARAMS")]) if first else mk("app", "INFO")

        return Py(cname, run)

    I.class_models = {f"{STREAM}.{cname}": build}
    I.gcache[(STREAM, "streaming_transform_with_state")] = Py("streaming_transform_with_state", lambda I2, a, k, s: a[0])
    kw = {n: sym(f"given_{n}", fixed=1) for n in given}
    fn = Py("fn", lambda I2, a, k, s: mk("app", "RESULT"))
    d = I.call(I.global_value(mod, deco), [], dict(kw), None, st)
    w = I.call(d, [fn], {}, None, st)
    args, kws = [sym("x0"), sym("x1")], {"extra": sym("extra")}
    out = I.call(w, list(args), dict(kws), None, st)
    if len(built) != 1 or len(calls) != 1:
        return undecided(f"{len(built)} modules, {len(calls)} calls of the module")
    ref, s = built[0]
    attrs = I.get(s, ref).attrs if isinstance(I.get(s, ref), PInst) else {}
    none = I.get(s, I.construct(I.global_value(mod, cname), [], {"update_fn": fn}, s)).attrs if not all(n in kw for n in opts) and not first else {}
    rs = []
    for n in opts:
        if n in kw:
            rs.append(eq_struct(R, I, s, attrs.get(n, NONE), sym("something else") if wrong else kw[n], [], f"field {n} of {cname} for {deco}({n}=...)"))
        elif n in none:
            rs.append(eq_struct(R, I, s, attrs.get(n, NONE), I.term(none[n], s), [], f"field {n} of {cname} for {deco} without {n}"))
    a, k = calls[0]
    if first:
        if not a or a[0] is not fn:
            rs.append(undecided("the module is not called with the decorated function itself"))
        a = a[1:]
    elif attrs.get("update_fn") is not fn:
        rs.append(undecided("the module does not hold the decorated function itself"))
    rs.append(eq_struct(R, I, st, Tup(a), args, [], f"arguments of {cname}"))
    rs.append(eq_struct(R, I, st, k.get("extra", NONE), kws["extra"], [], f"keyword argument of {cname}"))
    rs.append(eq_struct(R, I, st, out, mk("app", "INFO"), [], "result"))
    return worst(rs)


def simple(R, dotted, run):
    mod, node = R.p.need(dotted)
    I, st = Interp(R.p), S()
    R.interps.append(I)
    return run(I, st, mod)


def module_factory(I, st, mod, R):
    built = []

    def mk_(I2, a, k, s):
        built.append((list(a), dict(k)))
        return mk("app", "INSTANCE", const(len(built)))

    kw = {"com": sym("given_com"), "adjust": sym("given_adjust")}
    f = I.call(I.global_value(mod, "create_flax_module_factory"), [Py("cls", mk_)], dict(kw), None, st)
    one = I.call(f, [], {}, None, st)
    two = I.call(f, [], {}, None, st)
    rs = []
    if len(built) != 2:
        return undecided(f"{len(built)} constructions for two calls")
    for i, (a, k) in enumerate(built):
        rs.append(eq_struct(R, I, st, Tup(a), [], [], "positional arguments"))
        for n in kw:
            rs.append(eq_struct(R, I, st, k.get(n, NONE), kw[n], [], f"option {n} at call {i + 1}"))
    rs.append(eq_struct(R, I, st, Tup([one, two]), [mk("app", "INSTANCE", const(1)), mk("app", "INSTANCE", const(2))], [], "returned modules"))
    return worst(rs)


def tree_lag(I, st, mod, R, base):
    """tree_lag(k) applies Lag(k) to every leaf of its arguments"""
    built = []

    def lag(I2, c, args, kwargs, s):
        ref = I2.construct(c, list(args), dict(kwargs), s) if base.startswith("wax.flax") else None
        n = (args[0] if args else kwargs.get("lag"))
        k = len(built)
        built.append(n)
        return Py("lag", lambda I3, a, kk, s3: mk("app", "LAG", I3.term(n, s3), I3.term(a[0], s3)))

    I.class_models = {f"{base}.lag.Lag": lag}
    shift = sym("shift", fixed=1)
    f = I.call(I.global_value(mod, "tree_lag"), [shift], {}, None, st)
    xs = [sym("a"), sym("b"), sym("c")]
    out = I.call(f, [xs[0], Tup([xs[1], xs[2]])], {}, None, st)
    L = lambda x: mk("app", "LAG", shift, x)
    return eq_struct(R, I, st, out, [L(xs[0]), [L(xs[1]), L(xs[2])]], [], "lagged tree")


def wrapper(I, st, mod, R, kind, mangle=False):
    """the transformed module is the given one (same class, options, arguments and results)"""
    built, given = [], []

    def run(I2, a, k, s):
        return mk("app", "MODULE", *[I2.term(x, s) for x in a], *[mk("app", "kw_" + n, I2.term(v, s)) for n, v in sorted(k.items())])

    def make(I2, a, k, s):
        built.append((list(a), dict(k)))
        return Py("module", run)

    I.gcache[(mod.name, "flax_transform_with_state")] = Py("flax_transform_with_state", lambda I2, a, k, s: (given.append((a[0] if a else k["module"], s)), mk("app", "TRANSFORM"))[1])
    rs = []
    if kind == "create_streaming_module_wrapper":
        f = I.call(I.global_value(mod, kind), [Py("cls", make)], {}, None, st)
        if built or given:
            return undecided("built before the factory is called")
        opt = sym("given_opt")
        for i in range(2):
            out = I.call(f, [sym(f"pos{i}")], {"opt": opt}, None, st)
            rs.append(eq_struct(R, I, st, out, mk("app", "TRANSFORM"), [], "result"))
        if len(built) != 2 or len(given) != 2:
            return undecided(f"{len(built)} constructions, {len(given)} transforms for two calls")
        for i, (a, k) in enumerate(built):
            rs.append(eq_struct(R, I, st, Tup(a), [sym(f"pos{i + mangle}")], [], "positional arguments of the module class"))
            rs.append(eq_struct(R, I, st, Tup([k.get("opt", NONE)]), [opt], [], "option of the module class"))
            if len(k) != 1:
                rs.append(undecided(f"options {sorted(k)}"))
    else:
        out = I.call(I.global_value(mod, kind), [Py("module", run)], {}, None, st)
        rs.append(eq_struct(R, I, st, out, mk("app", "TRANSFORM"), [], "result"))
        if len(given) != 1:
            return undecided(f"{len(given)} transforms")
    m, s = given[-1]
    out = I.call(m, [sym("x"), sym("y")], {"mode": sym("m")}, None, s)
    rs.append(eq_struct(R, I, s, out, mk("app", "MODULE", sym("x"), sym("y"), mk("app", "kw_mode", sym("m"))), [], "what the transformed module computes"))
    return worst(rs)


@prop("W18")
def factory(R):
    R.total = True
    R.rule("factory-options", "create_X(option=value) builds an X whose field `option` is that value, every other field has the class default")
    R.rule("factory-defaults", "options left out of create_X have the default value of the class")
    R.rule("decorator-options", "the state decorators build their module with exactly the given options, call it on the decorated function's argument and pass its output, the arguments and the keywords to the function")
    R.rule("module-factory", "create_flax_module_factory builds a new module with the same options at every call")
    R.rule("tree-lag", "tree_lag(k) lags every leaf of every argument by k")
    n = 0
    last = None
    for mod, fn, cname in factories(R):
        w = f"{mod.rel}:{fn.lineno}:{fn.name}"
        R.ob("factory-options", f"{mod.name}.{fn.name}", lambda: created(R, mod, fn, cname), w)
        R.ob("factory-defaults", f"{mod.name}.{fn.name}", lambda: defaults(R, mod, fn, cname), w)
        n += 1
        if len(fn.args.args) >= 2:
            last = (mod, fn, cname)
    R.ob("factory-options", "number of factories", lambda: holds(f"{n} factories") if n >= 20 else undecided(f"only {n} factories found"))
    for modname, deco, cname, opts, how in DECOS:
        w = where_(R, f"{modname}.{deco}")
        req = ("state_modules",) if "state_modules" in opts else ()
        for given in dict.fromkeys([tuple(opts)] + [req + (o,) for o in opts if o not in req] + [req]):
            R.ob("decorator-options", f"{deco}[{'+'.join(given) or 'defaults'}]", lambda: decorated(R, modname, deco, cname, opts, how, given, 2), w)
        R.ob("decorator-options", f"{deco}[one argument]", lambda: decorated(R, modname, deco, cname, opts, how, req, 1), w)
    for deco, cname, opts, first in HANDED:
        w = where_(R, f"{STREAM}.{deco}")
        req = ("optimizer", "loss_fn") if first else ()
        for given in dict.fromkeys([opts, req] + [req + (o,) for o in opts if o not in req]):
            R.ob("decorator-options", f"{deco}[{'+'.join(given) or 'defaults'}]", lambda: handed(R, deco, cname, opts, first, given), w)
        R.control(lambda: handed(R, deco, cname, opts, first, opts, True))
    d = "wax.flax.core.unroll.create_flax_module_factory"
    R.ob("module-factory", "two calls", lambda: simple(R, d, lambda I, st, mod: module_factory(I, st, mod, R)), where_(R, d))
    for base in ("wax.modules", "wax.flax.modules"):
        d = f"{base}.lag.tree_lag"
        R.ob("tree-lag", base, lambda: simple(R, d, lambda I, st, mod: tree_lag(I, st, mod, R, base)), where_(R, d))
    R.rule("wrappers", "create_streaming_module_wrapper(cls)(options) transforms cls(options), make_streaming_compatible(module) a module that computes what the module computes")
    for kind in ("create_streaming_module_wrapper", "make_streaming_compatible"):
        d = "wax.flax.core.state_utils." + kind
        R.ob("wrappers", kind, lambda: simple(R, d, lambda I, st, mod: wrapper(I, st, mod, R, kind)), where_(R, d))
    R.control(lambda: simple(R, "wax.flax.core.state_utils.create_streaming_module_wrapper", lambda I, st, mod: wrapper(I, st, mod, R, "create_streaming_module_wrapper", True)))
    if last:
        R.control(lambda: created(R, *last, wrong=True))
    R.control(lambda: decorated(R, *DECOS[0], DECOS[0][3].keys(), 1, wrong=True))
