"""Library models for the abstract interpreter (jax.numpy, jax, haiku, flax, builtins)."""
from __future__ import annotations

import math
from fractions import Fraction

from .interp import (Arr, Bound, Cls, Ext, Func, GiveUp, AbsRaise, ModV, NONE, NTCls, PDict, PInst, PList, PSet, PVar,
                     Phi, Py, Ref, S, Splat, Sup, Tup, V, fresh)
from . import nd, terms
from .terms import (free_name, FALSE, INF, NAN, ONE, T, TRUE, ZERO, and_, const, ite, mk, not_, or_, subst, sym)

FLAX_MODULE = {"flax.linen.Module", "flax.linen.module.Module"}
HK_MODULE = {"haiku.Module", "haiku._src.module.Module"}

NPCONST = {"nan": NAN, "inf": INF, "NaN": NAN, "pi": mk("app", "pi"), "newaxis": NONE, "e": mk("app", "e")}


def canon_name(name):
    if name.startswith("numpy.") and name != "numpy.ndarray":
        name = "jax.numpy." + name[6:]
    if name == "numpy":
        name = "jax.numpy"
    for a, b in (("jax.tree.map", "jax.tree_util.tree_map"), ("jax.tree_map", "jax.tree_util.tree_map"), ("jax.tree.leaves", "jax.tree_util.tree_leaves"),
                 ("jax.tree_leaves", "jax.tree_util.tree_leaves"), ("jax.tree.flatten", "jax.tree_util.tree_flatten"), ("jax.tree.unflatten", "jax.tree_util.tree_unflatten"),
                 ("jax.tree.structure", "jax.tree_util.tree_structure"), ("jax._src.", "jax."), ("haiku._src.data_structures", "haiku.data_structures"),
                 ("haiku._src.transform.", "haiku."), ("flax.core.frozen_dict.", "flax.core.")):
        if name == a or name.startswith(a + ".") or (a.endswith(".") and name.startswith(a)):
            name = b + name[len(a):]
    return name


def ext_attr(I, o, name):
    if o.name.startswith("dtype:") and name == "type":
        return Ext(o.name[6:])
    if name in ("__name__", "__qualname__") and o.name.startswith("builtins."):
        return const(o.name[9:])
    full = canon_name(o.name + "." + name)
    if full.startswith("jax.numpy.") and full.count(".") == 2 and name in NPCONST:
        return NPCONST[name]
    if full in ("math.nan", "math.inf"):
        return NPCONST[name]
    return Ext(full)


# ------------------------------------------------------------------ modules
def mro_ext(I, c):
    if not isinstance(c, Cls):
        return {c.name} if isinstance(c, Ext) else set()
    key = ("mro", id(c.node))
    if key not in I.gcache:
        I.gcache[key] = {x.name for x in I.mro(c) if isinstance(x, Ext)}
    return I.gcache[key]


def is_flax_module(I, c):
    return bool(mro_ext(I, c) & FLAX_MODULE)


def is_nn_module(I, c):
    return bool(mro_ext(I, c) & (FLAX_MODULE | HK_MODULE))


def uniq(I, name):
    n = I.counters.get(name, 0)
    I.counters[name] = n + 1
    return name if n == 0 else f"{name}_{n}"


def snake(s):
    out = ""
    for i, ch in enumerate(s):
        if ch.isupper() and i and not s[i - 1].isupper():
            out += "_"
        out += ch.lower()
    return out


def instance_path(I, c, kwargs, st):
    if not is_nn_module(I, c):
        return None
    base = I.path[-1] if I.path else ""
    if is_flax_module(I, c):
        nm = None
        if "name" in kwargs:
            try:
                nm = I.pyval(kwargs["name"])
            except KeyError:
                nm = None
        return base + "/" + uniq(I, nm or snake(c.node.name))
    return None


def rename(I, ref, c, st):
    p = I.get(st, ref)
    if p.path is None:
        base = I.path[-1] if I.path else ""
        st.heap[ref.i] = PInst(p.cls, p.attrs, base + "/" + uniq(I, snake(c.node.name)))


def hk_module_init(I, obj, args, kwargs, st):
    p = I.get(st, obj)
    if p.path is not None:
        return NONE
    nm = kwargs.get("name", args[0] if args else NONE)
    try:
        nm = I.pyval(nm)
    except KeyError:
        nm = None
    base = I.path[-1] if I.path else ""
    c = p.cls
    st.heap[obj.i] = PInst(c, {**p.attrs, "name": const(nm) if nm else const(snake(c.node.name))}, base + "/" + uniq(I, nm or snake(c.node.name)))
    return NONE


def ensure_setup(I, obj, st):
    p = I.get(st, obj)
    if not is_flax_module(I, p.cls) or "__setup_done" in p.attrs:
        return
    st.heap[obj.i] = PInst(p.cls, {**p.attrs, "__setup_done": TRUE}, p.path)
    m, c = I.class_member(p.cls, "setup", st)
    if m is not None and isinstance(m, Func):
        I.path.append(p.path or "")
        I.counters_push()
        try:
            I.call_func(m, [obj], {}, st)
        finally:
            I.path.pop()
            I.counters_pop()


def super_attr(I, c, obj, name, st):
    if name == "__init__":
        if c.name in HK_MODULE:
            return Py("hk.Module.__init__", lambda I, a, k, s: hk_module_init(I, obj, a, k, s))
        return Py("object.__init__", lambda I, a, k, s: NONE)
    if name in ("__post_init__", "__init_subclass__", "__enter__", "__exit__", "setup"):
        return Py(name, lambda I, a, k, s: NONE)
    return mk("attr", mk("obj", ("super", c.name)), name)


def inst_attr(I, o, p, name, st):
    ex = mro_ext(I, p.cls) if isinstance(p.cls, Cls) else set()
    if ex & FLAX_MODULE:
        if name == "variable":
            return Py("variable", lambda I, a, k, s: flax_variable(I, p, a, k, s))
        if name == "param":
            return Py("param", lambda I, a, k, s: flax_param(I, p, a, k, s))
        if name == "sow":
            return Py("sow", lambda I, a, k, s: NONE)
        if name == "make_rng":
            return Py("make_rng", lambda I, a, k, s: mk("app", "make_rng", const(I.seqno(s, "make_rng"))))
        if name == "is_initializing":
            return Py("is_initializing", lambda I, a, k, s: I.running_init)
        if name == "name":
            return const((p.path or "").split("/")[-1])
        # a field may be set up lazily
        if "__setup_done" not in p.attrs and I.class_member(p.cls, "setup", st)[0] is not None:
            ensure_setup(I, o, st)
            q = I.get(st, o)
            if name in q.attrs:
                return q.attrs[name]
        if name in ("init", "apply", "bind", "init_with_output", "clone"):
            return mk("attr", I.term(o, st), name)
        if name == "variables":
            return flax_variables(I, p, st)
        if name in ("scope", "has_variable", "get_variable", "put_variable"):
            return mk("attr", I.term(o, st), name)
        return None
    if ex & HK_MODULE:
        if name == "module_name":
            return const(p.path or "")
        if name == "_submodules":
            return Tup([], "set")
        if name == "state_dict":
            return Py("state_dict", lambda I, a, k, s: hk_state_dict(I, p, s))
        if name in ("params_dict",):
            return Py(name, lambda I, a, k, s: I.alloc(s, PDict({})))
        # methods patched onto hk.Module by the repository
        r = hk_patch(I, name)
        if r is not None:
            return Bound(o, r)
        return None
    return None


def hk_patch(I, name):
    """attributes assigned to the library class by the analysed tree (hk.Module.X = f)"""
    import ast

    if not hasattr(I.p, "_hk_patches"):
        d = {}
        for m in I.p.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                    t = n.targets[0]
                    if isinstance(t.value, ast.Attribute) and t.value.attr == "Module" and isinstance(n.value, ast.Name):
                        d[t.attr] = (m, n.value.id)
        I.p._hk_patches = d
    e = I.p._hk_patches.get(name)
    return I.global_value(e[0], e[1]) if e else None


STATEPAIR = NTCls("StatePair", ("initial", "current"))


def hk_state_dict(I, p, st):
    d = {}
    for k, v in st.store.items():
        mod = k.rsplit("/", 1)[0]
        if mod == p.path or mod.startswith(p.path + "/"):
            d[k] = v
    return I.alloc(st, PDict(d))


def hk_current_frame(I, st):
    mods = {}
    for k, v in st.store.items():
        m, n = k.rsplit("/", 1)
        mods.setdefault(m, {})[n] = v
    out = {}
    for m, d in mods.items():
        ref = I.alloc(st, HKBundle({n: Tup([I.slot_init.get(m + "/" + n, NONE), v], "namedtuple", STATEPAIR.fields, STATEPAIR) for n, v in d.items()}, m))
        out[m] = ref
    sd = I.alloc(st, PDict(out))
    pd = I.alloc(st, PDict({}))
    return I.alloc(st, PInst(Ext("haiku.Frame"), {"state": sd, "params": pd}))


class HKBundle(PDict):
    def __init__(self, d, mod):
        super().__init__(d)
        self.mod = mod


def setitem_hook(I, payload, ref, key, v, st):
    if isinstance(payload, HKBundle):
        cur = v.items[1] if isinstance(v, Tup) and len(v.items) == 2 else v
        st.store[payload.mod + "/" + key] = cur
        nb = HKBundle({**payload.d, key: v}, payload.mod)
        st.heap[ref.i] = nb
        return True
    return False


def flax_variable(I, p, a, k, st):
    col = I.pyval(a[0]) if a else I.pyval(k["col"])
    name = I.pyval(a[1]) if len(a) > 1 else I.pyval(k["name"])
    init = a[2] if len(a) > 2 else k.get("init_fn")
    key = f"{p.path}/{col}:{name}"
    rest = list(a[3:])
    if init is not None:
        I.declare_slot(key, lambda s: I.call(init, rest, {}, None, s), st)
    ref = I.alloc(st, PVar(key))
    return ref


def flax_variables(I, p, st):
    """the collections of a module as a mapping"""
    cols = {}
    for key, v in st.store.items():
        if key.startswith((p.path or "") + "/") and ":" in key:
            rest = key[len(p.path or "") + 1:]
            pre, name = rest.rsplit(":", 1)
            sub = pre.split("/")
            d = cols.setdefault(sub[-1], {})
            for q in sub[:-1]:
                d = d.setdefault(q, {})
            d[name] = v

    def build(d):
        return I.alloc(st, PDict({k: build(v) if isinstance(v, dict) else v for k, v in d.items()}))

    return build(cols)


def m_flatten_dict(I, a, k, st):
    sep = kwarg(a, k, 2, "sep", NONE)
    sep = None if is_none(sep) else I.pyval(sep)
    out = {}

    def walk(v, pre):
        p = I.get(st, v) if isinstance(v, Ref) else None
        if isinstance(p, PDict):
            if p.rest is not None:
                raise GiveUp("flatten_dict of an open mapping")
            for kk, x in p.d.items():
                walk(x, pre + (kk,))
        elif not pre:
            raise GiveUp("flatten_dict of an unknown value")
        else:
            out[pre if sep is None else sep.join(pre)] = v

    walk(a[0], ())
    return I.alloc(st, PDict(out))


def m_unflatten_dict(I, a, k, st):
    sep = kwarg(a, k, 1, "sep", NONE)
    sep = None if is_none(sep) else I.pyval(sep)
    p = I.get(st, a[0]) if isinstance(a[0], Ref) else None
    if not isinstance(p, PDict) or p.rest is not None:
        raise GiveUp("unflatten_dict of an unknown value")
    root = {}
    for kk, v in p.d.items():
        path = kk if isinstance(kk, tuple) else tuple(kk.split(sep)) if sep is not None else (kk,)
        d = root
        for q in path[:-1]:
            d = d.setdefault(q, {})
            if not isinstance(d, dict):
                raise GiveUp("unflatten_dict of overlapping keys")
        d[path[-1]] = v

    def build(d):
        return I.alloc(st, PDict({k2: build(v) if isinstance(v, dict) else v for k2, v in d.items()}))

    return build(root)


def flax_param(I, p, a, k, st):
    name = I.pyval(a[0])
    init = a[1]
    key = f"{p.path}/params:{name}"
    return param_value(I, key, lambda s: I.call(init, [mk("app", "param_rng")] + list(a[2:]), {}, None, s), st)


def param_value(I, key, thunk, st):
    s2 = st.copy()
    v = thunk(s2)
    I.param_init[key] = v
    if I.params_as_init:
        return v
    return I.mirror(v, key) if not isinstance(v, T) else sym(key)


# ------------------------------------------------------------ dtype helpers
def is_int_dtype(I, d):
    if isinstance(d, Ext):
        nm = d.name.split(".")[-1]
        return "int" in nm
    if isinstance(d, T) and d.op == "obj" and isinstance(d.args[0], str):
        return "int" in d.args[0]
    return False


def is_bool_dtype(d):
    return isinstance(d, Ext) and d.name.split(".")[-1] in ("bool", "bool_")


def dtype_name(d):
    if isinstance(d, Ext):
        return d.name.split(".")[-1].replace("dtype:", "")
    if isinstance(d, T) and d.op == "obj" and isinstance(d.args[0], str):
        return d.args[0].lstrip("<>=|")
    return None


def wrap_int(n, v):
    for w in (8, 16, 32, 64):
        if n == f"uint{w}":
            return v % 2**w
        if n == f"int{w}":
            return (v + 2 ** (w - 1)) % 2**w - 2 ** (w - 1)
    return None


def typed_num(x):
    """(value, integer type or None) of an integer constant"""
    if x.op == "num" and x.args[0].denominator == 1:
        return int(x.args[0]), None
    if x.op == "cast" and x.args[1].op == "num" and wrap_int(x.args[0], 0) is not None:
        return int(x.args[1].args[0]), x.args[0]
    return None


def promote_int(a, b):
    if a is None or b is None or a == b:
        return a or b
    wa, wb = int(a.lstrip("uint")), int(b.lstrip("uint"))
    if a[0] == b[0]:
        return a if wa > wb else b
    u, i, wu, wi = (a, b, wa, wb) if a[0] == "u" else (b, a, wb, wa)
    if wi > wu:
        return i
    if wu < 64:
        return f"int{2 * wu}"
    raise GiveUp("uint64 with a signed type")


def fold_cast(n, x):
    """cast with its exact type; integer constants are converted (wrapping)"""
    q = typed_num(x)
    if q is not None:
        v = wrap_int(n, q[0])
        if v is not None:
            return mk("cast", n, const(v))
        if n in ("int", "float", "float64"):
            return const(q[0])
    return x if x.op == "cast" and x.args[0] == n else mk("cast", n, x)


def cast_to(I, v, dtype):
    if dtype is None or (isinstance(dtype, T) and dtype.op == "obj" and dtype.args[0] is None):
        return v
    if I.cast_hook is not None and dtype_name(dtype) is not None:
        return I.lift(lambda x: I.cast_hook(dtype_name(dtype), x), v)
    if I.exact_casts:
        n = dtype_name(dtype)
        if n is not None:
            return I.lift(lambda x: fold_cast(n, x), v)
    if is_int_dtype(I, dtype):
        one = lambda x: x if x.op == "toint" else mk("expand", x.args[0], one(x.args[1])) if x.op == "expand" and isinstance(x.args[1], T) else mk("toint", x)
        return I.lift(one, v)
    if is_bool_dtype(dtype):
        return I.lift(lambda x: x if x.op in ("bool", "not", "and", "or", "lt", "le", "eq", "ne", "isnan") else mk("ne", x, ZERO), v)
    return v


def filled(I, shape, v, st):
    """constant array of the given shape"""
    items = None
    if isinstance(shape, Tup):
        items = list(shape.items)
    elif isinstance(shape, Ref):
        items = I.iter_items(shape, st)
    elif isinstance(shape, T) and shape.op == "num":
        items = [shape]
    elif isinstance(shape, T) and shape.op == "tuple":
        items = list(shape.args)
    if items is None:
        return v
    items = [x for x in items]
    if not items:
        return v
    x = items[0]
    if isinstance(x, T) and x.op == "num" and x.args[0].denominator == 1 and 0 <= x.args[0] <= I.MAX_FILL:
        inner = filled(I, Tup(items[1:]), v, st)
        return Arr([inner] * int(x.args[0]))
    return v


def pw(op):
    return lambda I, a, k, st: I.lift(lambda *x: mk(op, *x), *a[: 1 if op in UN else 2], st=st)


UN = {"exp", "log", "sqrt", "isnan", "isinf", "isfinite", "abs", "tanh", "sin", "cos", "floor", "ceil", "round", "sign"}


def m_isclose(I, a, k, st):
    rtol, atol = kwarg(a, k, 2, "rtol", const(Fraction(1, 10**5))), kwarg(a, k, 3, "atol", const(Fraction(1, 10**8)))
    both = kwarg(a, k, 4, "equal_nan", FALSE)
    if not I.is_const(both):
        raise GiveUp("isclose with an unknown equal_nan")

    def near(x, y, r, t):
        nx, ny = mk("isnan", x), mk("isnan", y)
        # two values exactly equal are close, infinite ones included; otherwise the distance counts
        # (decided for finite values and NaN only: the distance of two infinite values is NaN)
        return ite(or_(nx, ny), and_(nx, ny) if I.is_const(both) and I.pyval(both) else FALSE, or_(mk("eq", x, y), mk("le", mk("abs", mk("sub", x, y)), mk("add", t, mk("mul", r, mk("abs", y))))))

    return I.lift(near, to_arr(I, a[0], st), to_arr(I, a[1], st), rtol, atol, st=st)


def kwarg(a, k, i, name, default=NONE):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def is_none(v):
    return v is None or (isinstance(v, T) and v.op == "obj" and v.args[0] is None)


def to_arr(I, v, st):
    """array view of lists/tuples"""
    if isinstance(v, (Arr, T)):
        if isinstance(v, T) and v.op == "tuple":
            return Arr([to_arr(I, x, st) for x in v.args])
        return v
    if isinstance(v, Phi):
        return I.phi(v.c, to_arr(I, v.a, st), to_arr(I, v.b, st))
    items = I.iter_items(v, st)
    if items is not None and not any(isinstance(x, Splat) for x in items):
        return Arr([to_arr(I, x, st) for x in items])
    if isinstance(v, Ref) or isinstance(v, Tup):
        return mk("app", "array", I.term(v, st))
    return I.term(v, st)


def m_where(I, a, k, st):
    c, x, y = a[:3]
    x, y = to_arr(I, x, st), to_arr(I, y, st)
    return I.lift(lambda c, x, y: ite(boolean(c), x, y), to_arr(I, c, st), x, y, st=st)


BOOLEAN_OPS = ("bool", "not", "and", "or", "lt", "le", "eq", "ne", "isnan", "isinf", "isfinite", "xor", "truth", "in", "is")
SCALAR_OPS = BOOLEAN_OPS + ("num", "nan", "inf", "add", "sub", "mul", "div", "neg", "abs", "ite", "nan_to_num", "max", "min", "fmax", "fmin", "sign")


def known_scalar(t, seen=None):
    """the term is made of values of shape () by elementwise operations"""
    seen = {} if seen is None else seen
    if t not in seen:
        if t.op == "sym":
            seen[t] = bool(dict(t.args[1]).get("scalar"))
        else:
            seen[t] = t.op in SCALAR_OPS and all(known_scalar(a, seen) for a in t.args if isinstance(a, T))
    return seen[t]


def boolean(c):
    if c.op == "num":
        return TRUE if c.args[0] else FALSE
    if c.op in ("bool", "not", "and", "or", "lt", "le", "eq", "ne", "isnan", "isinf", "isfinite", "xor", "truth", "in", "is"):
        return c
    if c.op == "sym" and dict(c.args[1]).get("boolean"):
        return c
    if c.op == "ite":
        return ite(c.args[0], boolean(c.args[1]), boolean(c.args[2]))
    return mk("truth", c)


def reduce_(I, kind, v, axis, st, keepdims=None):
    v = to_arr(I, v, st)
    ax = axis
    if isinstance(v, Arr) and I.scalar_items and nd.rect(v) and keepdims is not None and keepdims is TRUE:
        r = reduce_(I, kind, v, axis, st)
        if is_none(ax):
            return nd.build((1,) * nd.rank(v), [r])
        if I.is_const(ax):
            av = I.pyval(ax)
            return nd.expand(r, av + nd.rank(v) if av < 0 else av) if isinstance(r, Arr) else nd.build((1,), [r])
    if isinstance(v, Arr):
        if not is_none(ax):
            try:
                axv = I.pyval(ax)
            except (KeyError, AttributeError):
                axv = None
            if isinstance(axv, int) and axv < 0 and I.scalar_items:
                depth, q = 0, v
                while isinstance(q, Arr):
                    depth, q = depth + 1, q.items[0] if q.items else None
                axv += depth
                if axv < 0:
                    raise AbsRaise("ValueError")
            if axv == 0:
                its = list(v.items)
                return fold(I, kind, its, st)
            if isinstance(axv, int) and axv > 0:
                return Arr([reduce_(I, kind, x, const(axv - 1), st) for x in v.items])
        if is_none(ax):
            if I.scalar_items:
                its = flat_items(v)
                if its is not None:
                    return fold(I, kind, its, st)
            its = [reduce_(I, "sum" if kind == "mean" else kind, x, NONE, st) for x in v.items]
            if kind != "mean":
                return fold(I, kind, its, st)
        return mk("app", "reduce_" + kind, I.term(v, st), I.term(ax, st))
    axt = I.term(ax, st)
    if kind == "any" and v.op in ("bool",):
        return v
    if is_none(ax) and (keepdims is None or is_none(keepdims) or keepdims is FALSE) and known_scalar(v):
        return boolean(v) if kind in ("any", "all") else v if kind != "sum" or v.op not in BOOLEAN_OPS else ite(v, ONE, ZERO)
    if not is_none(keepdims) and keepdims is not None and keepdims is not FALSE:
        axt = mk("tuple", axt, mk("obj", "keepdims"))
    if kind in ("any", "all"):
        return mk("ne", mk("reduce", kind, axt, boolean(v)), ZERO)
    return mk("reduce", kind, axt, v)


def fold(I, kind, its, st):
    if not its:
        return ZERO
    r = its[0] if kind not in ("any", "all") else I.lift(boolean, its[0])
    for x in its[1:]:
        if kind in ("sum", "mean"):
            r = I.lift(lambda p, q: I.arith("add", num(p), num(q)), r, x)
        elif kind in ("max", "min"):
            r = I.lift(lambda p, q: mk(kind, p, q), r, x)
        elif kind == "any":
            r = I.lift(lambda p, q: or_(p, boolean(q)), r, x)
        elif kind == "all":
            r = I.lift(lambda p, q: and_(p, boolean(q)), r, x)
        elif kind == "prod":
            r = I.lift(lambda p, q: I.arith("mul", p, q), r, x)
        else:
            raise GiveUp("fold " + kind)
    if kind == "mean":
        r = I.lift(lambda p: mk("div", p, const(len(its))), r)
    if kind == "sum" and len(its) == 1:
        r = I.lift(num, r)
    return r


def num(p):
    if p.op == "bool":
        return ONE if p.args[0] else ZERO
    if p.op in ("not", "and", "or", "lt", "le", "eq", "ne", "isnan", "isinf", "isfinite", "xor"):
        return ite(p, ONE, ZERO)
    return p


def m_reduce(kind):
    def f(I, a, k, st):
        return reduce_(I, kind, a[0], kwarg(a, k, 1, "axis"), st, k.get("keepdims"))

    return f


def m_nanreduce(kind):
    def f(I, a, k, st):
        v = to_arr(I, a[0], st)
        ax = kwarg(a, k, 1, "axis")
        z = I.lift(lambda x: ite(mk("isnan", x), ZERO, x), v)
        s = reduce_(I, "sum", z, ax, st)
        if kind == "sum":
            return s
        c = reduce_(I, "sum", I.lift(lambda x: ite(mk("isnan", x), ZERO, ONE), v), ax, st)
        return I.lift(lambda p, q: mk("div", p, q), s, c)

    return f


def m_full(I, a, k, st):
    shape = kwarg(a, k, 0, "shape")
    v = kwarg(a, k, 1, "fill_value")
    v = cast_to(I, to_arr(I, v, st), kwarg(a, k, 2, "dtype", None))
    return filled(I, shape, v, st)


def m_const(c):
    def f(I, a, k, st):
        v = cast_to(I, c, kwarg(a, k, 1, "dtype", None))
        return filled(I, kwarg(a, k, 0, "shape"), v, st)

    return f


def like(I, v, x, st):
    x = to_arr(I, x, st)
    if isinstance(x, Arr):
        return Arr([like(I, v, y, st) for y in x.items])
    return v


def m_full_like(I, a, k, st):
    return like(I, cast_to(I, to_arr(I, kwarg(a, k, 1, "fill_value"), st), kwarg(a, k, 2, "dtype", None)), a[0], st)


def m_like(c):
    return lambda I, a, k, st: like(I, cast_to(I, c, kwarg(a, k, 1, "dtype", None)), a[0], st)


def m_array(I, a, k, st):
    if not a:
        return mk("app", "array")
    v = a[0]
    if isinstance(v, T) and v.op != "tuple":
        return cast_to(I, v, kwarg(a, k, 1, "dtype", None))
    return cast_to(I, to_arr(I, v, st), kwarg(a, k, 1, "dtype", None))


def flat_items(v):
    if isinstance(v, Arr):
        out = []
        for x in v.items:
            f = flat_items(x)
            if f is None:
                return None
            out += f
        return out
    return [v] if isinstance(v, T) else None


def reshape_like(v, flat):
    flat = list(flat)

    def go(x):
        if isinstance(x, Arr):
            return Arr([go(y) for y in x.items])
        return flat.pop(0)

    return go(v)


def m_expand_dims(I, a, k, st):
    v, ax = to_arr(I, a[0], st), kwarg(a, k, 1, "axis")
    if I.is_const(ax):
        if I.scalar_items and nd.rect(v):
            return nd.expand(v, I.pyval(ax))
        if I.pyval(ax) == 0:
            return getitem(I, v, NONE, st)
    return mk("app", "expand_dims", I.term(v, st), I.term(ax, st))


def m_repeat(I, a, k, st):
    v, n, ax = to_arr(I, a[0], st), kwarg(a, k, 1, "repeats"), kwarg(a, k, 2, "axis")
    if I.scalar_items and isinstance(v, Arr) and nd.rect(v) and I.is_const(n) and I.is_const(ax):
        return nd.repeat(v, int(I.pyval(n)), I.pyval(ax))
    return mk("app", "repeat", I.term(v, st), I.term(n, st), I.term(ax, st))


def m_roll(I, a, k, st):
    v, sh, ax = to_arr(I, a[0], st), kwarg(a, k, 1, "shift"), kwarg(a, k, 2, "axis")
    if isinstance(v, Arr):
        try:
            s = fold_index(sh) if isinstance(sh, T) else sh
            s = int(s.args[0]) if isinstance(s, T) and s.op == "num" else I.pyval(sh)
            ax0 = is_none(ax) or I.pyval(ax) == 0
        except KeyError:
            ax0 = False
        if not ax0 and isinstance(s, int) and I.scalar_items and nd.rect(v) and I.is_const(ax) and isinstance(I.pyval(ax), int):
            axv = I.pyval(ax) + (nd.rank(v) if I.pyval(ax) < 0 else 0)
            if not 0 <= axv < nd.rank(v):
                raise AbsRaise("ValueError")
            rolled = lambda x, d: Arr([x.items[(i - s) % len(x.items)] for i in range(len(x.items))]) if d == 0 else Arr([rolled(y, d - 1) for y in x.items])
            return rolled(v, axv)
        if ax0 and isinstance(s, int) and is_none(ax) and any(isinstance(x, Arr) for x in v.items):
            flat = flat_items(v)
            if flat is not None:
                n = len(flat)
                return reshape_like(v, [flat[(i - s) % n] for i in range(n)])
            ax0 = False
        if ax0 and isinstance(s, int):
            n = len(v.items)
            return Arr([v.items[(i - s) % n] for i in range(n)])
    return mk("app", "roll", I.term(v, st), I.term(sh, st), I.term(ax, st))


def m_concat(I, a, k, st):
    items = I.iter_items(a[0], st)
    ax = kwarg(a, k, 1, "axis", ZERO)
    if items is not None and is_none(ax) is False:
        out = []
        ok = True
        try:
            ok = I.pyval(ax) == 0
        except KeyError:
            ok = False
        for x in items:
            if isinstance(x, Splat):
                ok = False
                break
            x = to_arr(I, x, st)
            if isinstance(x, T) and x.op == "expand" and x.args[0] == 0:
                x = Arr([x.args[1]])
            if isinstance(x, Arr):
                out.extend(x.items)
            else:
                ok = False
                break
        if ok:
            return Arr(out)
    return mk("app", "concatenate", I.term(a[0], st), I.term(ax, st))


def m_stack(I, a, k, st):
    items = I.iter_items(a[0], st)
    ax = kwarg(a, k, 1, "axis", ZERO)
    if items is not None and not any(isinstance(x, Splat) for x in items) and I.is_const(ax) and I.pyval(ax) == 0:
        return Arr([to_arr(I, x, st) for x in items])
    if items and I.scalar_items and not any(isinstance(x, Splat) for x in items) and I.is_const(ax):
        vs = [to_arr(I, x, st) for x in items]
        if all(nd.rect(v) for v in vs):
            if len({nd.shape(v) for v in vs}) > 1:
                raise AbsRaise("ValueError: all input arrays must have the same shape", sure=True)
            r, n = nd.rank(vs[0]), int(I.pyval(ax))
            if not -r - 1 <= n <= r:
                raise AbsRaise("ValueError: axis out of bounds", sure=True)

            def go(xs, d):
                return Arr(xs) if d == 0 else Arr([go(list(ys), d - 1) for ys in zip(*[x.items for x in xs])])

            return go(vs, n % (r + 1))
    return mk("app", "stack", I.term(a[0], st), I.term(ax, st))


def m_tile(I, a, k, st):
    v, reps = to_arr(I, kwarg(a, k, 0, "A"), st), kwarg(a, k, 1, "reps")
    reps = [reps] if isinstance(reps, T) else I.seq_items(reps, st)
    if isinstance(v, Arr) and nd.rect(v) and I.scalar_items and all(I.is_const(r) for r in reps):
        r = [int(I.pyval(x)) for x in reps]
        n = max(len(r), nd.rank(v))
        r = [1] * (n - len(r)) + r
        v = nd.reshape(v, [1] * (n - nd.rank(v)) + list(nd.shape(v)))

        def go(x, d):
            return x if d == n else Arr([go(y, d + 1) for y in x.items] * r[d])

        return go(v, 0)
    return mk("app", "jax.numpy.tile", I.term(v, st), mk("tuple", *[I.term(x, st) for x in reps]))


def m_arange(I, a, k, st):
    try:
        r = range(*[int(I.pyval(x)) for x in a])
        if len(r) <= I.MAX_FILL:
            return Arr([const(i) for i in r])
    except (KeyError, TypeError, ValueError):
        pass
    return mk("app", "arange", *[I.term(x, st) for x in a])


def m_outer(I, a, k, st):
    def tag(v, s):
        t = I.term(v, st)
        return subst(t, lambda x: mk("sym", f"{x.args[0]}@{s}", x.args[1]) if x.op == "sym" and not dict(x.args[1]).get("scalar") else x)

    u, v = to_arr(I, a[0], st), to_arr(I, a[1], st)
    if isinstance(u, Arr) and isinstance(v, Arr) and I.scalar_items:
        fu, fv = flat_items(u), flat_items(v)
        if fu is not None and fv is not None:
            return Arr([Arr([I.arith("mul", p, q) for q in fv]) for p in fu])
    return mk("mul", tag(u, "row"), tag(v, "col"))


def m_eye(I, a, k, st):
    n = a[0] if a else k.get("N", k.get("n"))
    m = kwarg(a, k, 1, "M", NONE)
    m = n if is_none(m) else m
    if I.scalar_items and I.is_const(n) and I.is_const(m):
        return Arr([Arr([const(1 if i == j else 0) for j in range(int(I.pyval(m)))]) for i in range(int(I.pyval(n)))])
    return mk("app", "eye", I.term(n, st), I.term(m, st))


def m_nan_to_num(I, a, k, st):
    v = to_arr(I, a[0], st)
    n = kwarg(a, k, 2, "nan", ZERO)
    p, m = k.get("posinf", NONE), k.get("neginf", NONE)
    n, p, m = I.term(n, st), I.term(p, st), I.term(m, st)
    return I.lift(lambda x: mk("nan_to_num", x, n, None if is_none(p) else p, None if is_none(m) else m), v, st=st)


def m_clip(I, a, k, st):
    v = to_arr(I, a[0], st)
    lo = kwarg(a, k, 1, "min", k.get("a_min", NONE))
    hi = kwarg(a, k, 2, "max", k.get("a_max", NONE))
    if not is_none(lo):
        v = I.lift(lambda x, y: mk("max", x, y), v, lo, st=st)
    if not is_none(hi):
        v = I.lift(lambda x, y: mk("min", x, y), v, hi, st=st)
    return v


def m_select(I, a, k, st):
    cs, vs = I.iter_items(a[0], st), I.iter_items(a[1], st)
    d = kwarg(a, k, 2, "default", ZERO)
    for c, v in reversed(list(zip(cs, vs))):
        d = m_where(I, [c, v, d], {}, st)
    return d


def cmp(op, swap=False):
    def f(I, a, k, st):
        x, y = (a[1], a[0]) if swap else (a[0], a[1])
        return I.lift(lambda p, q: I.decide(mk(op, p, q)), to_arr(I, x, st), to_arr(I, y, st), st=st)

    return f


def bin_(name):
    return lambda I, a, k, st: I.lift(lambda p, q: I.arith(name, p, q), to_arr(I, a[0], st), to_arr(I, a[1], st), st=st)


def matmul(I, a, b, st):
    a, b = to_arr(I, a, st), to_arr(I, b, st)
    if I.scalar_items and isinstance(a, Arr) and isinstance(b, Arr) and nd.rect(a) and nd.rect(b) and nd.rank(a) <= 2 and nd.rank(b) <= 2:
        ra, rb = nd.rank(a), nd.rank(b)
        rows = a.items if ra == 2 else [a]
        cols = [Arr([r.items[j] for r in b.items]) for j in range(nd.shape(b)[1])] if rb == 2 else [b]
        if len(rows[0].items) != len(cols[0].items):
            raise AbsRaise("TypeError")

        def dot(p, q):
            t = ZERO
            for x, y in zip(p.items, q.items):
                t = I.arith("add", t, I.arith("mul", I.term(x, st), I.term(y, st)))
            return t

        m = [[dot(r, c) for c in cols] for r in rows]
        m = [r[0] for r in m] if rb == 1 else [Arr(r) for r in m]
        return m[0] if ra == 1 else Arr(m)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.items) == len(b.items) and not any(isinstance(x, Arr) for x in a.items):
        prods = [I.lift(lambda p, q: I.arith("mul", p, q), x, y) for x, y in zip(a.items, b.items)]
        return fold(I, "sum", prods, st)
    if isinstance(a, Arr) and not a.items or isinstance(b, Arr) and not b.items:
        return ZERO
    return mk("matmul", I.term(a, st), I.term(b, st))


def m_pad(I, a, k, st):
    """constant padding of a vector"""
    v, w = to_arr(I, a[0], st), kwarg(a, k, 1, "pad_width")
    mode, c = kwarg(a, k, 2, "mode", const("constant")), k.get("constant_values", ZERO)
    ws = I.iter_items(w, st) if isinstance(w, (Tup, Ref)) else [w, w] if isinstance(w, T) else None
    if ws and len(ws) == 1 and isinstance(ws[0], (Tup, Ref)):
        ws = I.iter_items(ws[0], st)
    if isinstance(v, Arr) and ws and len(ws) == 2 and I.is_const(mode) and I.pyval(mode) == "constant" and isinstance(c, T) and nd.rank(v) == 1:
        n = [fold_index(x) if isinstance(x, T) else x for x in ws]
        if all(isinstance(x, T) and x.op == "num" for x in n):
            return Arr([c] * int(n[0].args[0]) + list(v.items) + [c] * int(n[1].args[0]))
    return mk("app", "pad", *[I.term(x, st) for x in a], *[I.term(x, st) for _, x in sorted(k.items())])


def m_sort(I, a, k, st):
    v = to_arr(I, a[0], st)
    if isinstance(v, Arr) and len(a) == 1 and not k and all(isinstance(x, T) for x in v.items):
        its = [fold_index(x) for x in v.items]
        if all(x.op == "num" for x in its):
            return Arr(sorted(its, key=lambda x: x.args[0]))
        if I.scalar_items:
            its = sorted(its, key=id)   # terms are interned: one order for one set of entries
            return Arr([mk("app", "ORDER", const(i), *its) for i in range(len(its))])
    return mk("app", "sort", *[I.term(x, st) for x in a], *[I.term(x, st) for _, x in sorted(k.items())])


def tensordot(I, a, k, st):
    """contraction over the last axes of the first and the first axes of the second operand"""
    x, y = to_arr(I, a[0], st), to_arr(I, a[1], st)
    axes = k.get("axes", a[2] if len(a) > 2 else const(2))
    n = I.pyval(axes) if I.is_const(axes) else None
    if n == 1 and I.scalar_items and isinstance(x, Arr) and isinstance(y, Arr) and nd.rect(x) and nd.rect(y) and nd.rank(x) == 1 and nd.rank(y) >= 1:
        if len(x.items) != len(y.items):
            raise AbsRaise("TypeError")
        t = None
        for p, q in zip(x.items, y.items):
            v = I.lift(lambda u, w: I.arith("mul", u, w), p, q, st=st)
            t = v if t is None else I.lift(lambda u, w: I.arith("add", u, w), t, v, st=st)
        if t is not None:
            return t
    return mk("app", "tensordot", *[I.term(v, st) for v in a], *[I.term(v, st) for _, v in sorted(k.items())])


def kind_of(t):
    """element kind of a value as far as it is known: 'f', 'i', 'b' or None"""
    if not isinstance(t, T):
        return None
    if t.op == "sym":
        f = dict(t.args[1])
        if f.get("dtype"):
            d = f["dtype"]
            return "f" if d.startswith(("float", "bfloat")) else "i" if d.startswith(("int", "uint")) else "b" if d.startswith("bool") else None
        return "b" if f.get("boolean") else "i" if f.get("int") else "f" if f.get("nan") else None
    if t.op == "nan" or t.op in ("exp", "log", "sqrt", "div", "tofloat"):
        return "f"
    if t.op in ("isnan", "isinf", "isfinite", "lt", "le", "eq", "ne", "not", "and", "or"):
        return "b"
    if t.op == "toint":
        return "i"
    if t.op == "ite":
        a, b = kind_of(t.args[1]), kind_of(t.args[2])
        return a if a == b else "f" if "f" in (a, b) else None
    if t.op in ("add", "mul", "sub", "neg", "max", "min"):
        ks = [kind_of(x) for x in t.args if isinstance(x, T)]
        return "f" if "f" in ks else None
    return None


def m_issubdtype(I, a, k, st):
    d, c = a[0], a[1]
    kd = None
    if isinstance(d, T) and d.op == "dtype":
        kd = kind_of(d.args[0])
    elif isinstance(d, Ext):
        n = d.name.split(".")[-1]
        kd = "f" if n.startswith(("float", "bfloat")) else "i" if n.startswith(("int", "uint")) else "b" if n.startswith("bool") else None
    if kd and isinstance(c, Ext):
        n = c.name.split(".")[-1]
        fam = {"floating": "f", "inexact": "f", "integer": "i", "number": "fi", "bool_": "b", "signedinteger": "i"}.get(n)
        if fam:
            return TRUE if kd in fam else FALSE
    return mk("app", "issubdtype", I.term(d, st), I.term(c, st))


JNP = {
    "issubdtype": m_issubdtype,
    "where": m_where, "sum": m_reduce("sum"), "mean": m_reduce("mean"), "max": m_reduce("max"), "min": m_reduce("min"), "amax": m_reduce("max"), "amin": m_reduce("min"),
    "any": m_reduce("any"), "all": m_reduce("all"), "prod": m_reduce("prod"), "nansum": m_nanreduce("sum"), "nanmean": m_nanreduce("mean"),
    "std": lambda I, a, k, st: mk("app", "std", *[I.term(x, st) for x in a], *[I.term(v, st) for _, v in sorted(k.items())]),
    "full": m_full, "zeros": m_const(ZERO), "ones": m_const(ONE), "empty": m_const(mk("app", "empty")), "full_like": m_full_like, "zeros_like": m_like(ZERO), "ones_like": m_like(ONE),
    "array": m_array, "asarray": m_array, "copy": lambda I, a, k, st: m_array(I, a, {}, st), "roll": m_roll, "concatenate": m_concat, "append": lambda I, a, k, st: m_concat(I, [Tup([a[0], a[1] if isinstance(a[1], Arr) else Arr([a[1]])])] + ([k["axis"]] if "axis" in k else [ZERO]), {}, st),
    "tensordot": tensordot, "sort": m_sort, "pad": m_pad, "stack": m_stack, "arange": m_arange, "outer": m_outer, "eye": m_eye, "identity": m_eye, "matmul": lambda I, a, k, st: matmul(I, a[0], a[1], st), "dot": lambda I, a, k, st: matmul(I, a[0], a[1], st),
    "inner": lambda I, a, k, st: matmul(I, a[0], a[1], st) if nd.rank(to_arr(I, a[0], st)) == 1 else mk("app", "inner", *[I.term(x, st) for x in a]), "vdot": lambda I, a, k, st: matmul(I, a[0], a[1], st),
    "nan_to_num": m_nan_to_num, "clip": m_clip, "select": m_select,
    "logical_not": lambda I, a, k, st: I.lift(lambda x: not_(boolean(x)), to_arr(I, a[0], st), st=st), "invert": lambda I, a, k, st: I.lift(lambda x: not_(boolean(x)), to_arr(I, a[0], st), st=st),
    "logical_and": lambda I, a, k, st: I.lift(lambda x, y: and_(boolean(x), boolean(y)), a[0], a[1], st=st),
    "logical_or": lambda I, a, k, st: I.lift(lambda x, y: or_(boolean(x), boolean(y)), a[0], a[1], st=st),
    "bitwise_and": bin_("and"), "bitwise_or": bin_("or"), "right_shift": bin_("shr"), "left_shift": bin_("shl"),
    "bitwise_right_shift": bin_("shr"), "bitwise_left_shift": bin_("shl"),
    "less": cmp("lt"), "less_equal": cmp("le"), "greater": cmp("lt", True), "greater_equal": cmp("le", True), "equal": cmp("eq"), "not_equal": cmp("ne"),
    "add": bin_("add"), "subtract": bin_("sub"), "multiply": bin_("mul"), "divide": bin_("div"), "true_divide": bin_("div"), "power": bin_("pow"), "mod": bin_("mod"), "remainder": bin_("mod"), "fmod": bin_("fmod"), "trunc": lambda I, a, k, st: I.lift(lambda x: const(int(x.args[0])) if x.op == "num" else mk("toint", x), a[0], st=st), "fix": lambda I, a, k, st: I.lift(lambda x: const(int(x.args[0])) if x.op == "num" else mk("toint", x), a[0], st=st), "floor_divide": bin_("floordiv"),
    "negative": lambda I, a, k, st: I.lift(lambda x: mk("neg", x), a[0], st=st),
    "square": lambda I, a, k, st: I.lift(lambda x: mk("mul", x, x), a[0], st=st),
    "reciprocal": lambda I, a, k, st: I.lift(lambda x: mk("div", ONE, x), a[0], st=st),
    "maximum": pw("max"), "minimum": pw("min"), "fmax": pw("fmax"), "fmin": pw("fmin"), "isinf": pw("isinf"), "isfinite": pw("isfinite"),
    "isnan": lambda I, a, k, st: I.lift(lambda x: I.decide(mk("isnan", x)), to_arr(I, a[0], st), st=st),
    "sign": lambda I, a, k, st: I.lift(lambda x: ite(mk("isnan", x), NAN, ite(mk("lt", ZERO, x), ONE, ite(mk("lt", x, ZERO), mk("neg", ONE), ZERO))), to_arr(I, a[0], st), st=st),
    "exp": pw("exp"), "log": pw("log"), "sqrt": pw("sqrt"), "abs": pw("abs"), "absolute": pw("abs"), "tanh": pw("tanh"), "sin": pw("sin"), "cos": pw("cos"), "floor": pw("floor"), "ceil": pw("ceil"),
    "matmul": lambda I, a, k, st: matmul(I, a[0], a[1], st), "dot": lambda I, a, k, st: matmul(I, a[0], a[1], st),
    "ravel": lambda I, a, k, st: arr_method(I, to_arr(I, a[0], st) if I.scalar_items else a[0], "ravel", a[1:], k, st), "reshape": lambda I, a, k, st: arr_method(I, a[0], "reshape", a[1:], k, st),
    "expand_dims": m_expand_dims, "repeat": m_repeat, "transpose": lambda I, a, k, st: arr_attr(I, to_arr(I, a[0], st), "T", st) if isinstance(to_arr(I, a[0], st), Arr) else mk("transpose", I.term(a[0], st)),
    "atleast_1d": lambda I, a, k, st: Arr([a[0]]) if I.scalars and isinstance(a[0], T) else a[0], "tile": lambda I, a, k, st: m_tile(I, a, k, st), "squeeze": lambda I, a, k, st: arr_method(I, a[0], "squeeze", a[1:], k, st),
    "flip": lambda I, a, k, st: Arr(tuple(reversed(a[0].items))) if isinstance(a[0], Arr) else mk("app", "flip", I.term(a[0], st)),
    "broadcast_to": lambda I, a, k, st: a[0],
    "ndim": lambda I, a, k, st: getattr_term(I, a[0], "ndim", st), "shape": lambda I, a, k, st: getattr_term(I, a[0], "shape", st), "size": lambda I, a, k, st: getattr_term(I, a[0], "size", st),
    "isclose": lambda I, a, k, st: m_isclose(I, a, k, st),
    "isscalar": lambda I, a, k, st: TRUE if I.is_const(a[0]) and isinstance(I.pyval(a[0]), (int, float, Fraction, complex)) else FALSE,
    "log1p": lambda I, a, k, st: I.lift(lambda x: mk("log", mk("add", ONE, x)), a[0], st=st), "expm1": lambda I, a, k, st: I.lift(lambda x: mk("sub", mk("exp", x), ONE), a[0], st=st),
    "float32": lambda I, a, k, st: a[0], "float64": lambda I, a, k, st: a[0],
    "int32": lambda I, a, k, st: cast_to(I, a[0], Ext("int32")), "int64": lambda I, a, k, st: cast_to(I, a[0], Ext("int64")), "uint32": lambda I, a, k, st: cast_to(I, a[0], Ext("uint32")), "uint64": lambda I, a, k, st: cast_to(I, a[0], Ext("uint64")),
}


def getattr_term(I, v, name, st):
    if isinstance(v, Ref) and isinstance(I.get(st, v), PInst):
        r = I.getattr_opt(v, name, st)
        if r is not None:
            return r
    r = I.getattr_opt(to_arr(I, v, st), name, st)
    return r if r is not None else mk("attr", I.term(v, st), name)


# ----------------------------------------------------------------- pytrees
def tree_is_node(I, v, st):
    if isinstance(v, Tup) and v.kind in ("tuple", "list", "namedtuple"):
        return True
    if isinstance(v, Ref):
        p = I.get(st, v)
        return isinstance(p, (PList, PDict))
    return is_none(v)


def tree_map(I, f, trees, st):
    t = trees[0]
    if isinstance(t, Phi):
        return I.phi(t.c, tree_map(I, f, [t.a] + [x.a if isinstance(x, Phi) and x.c is t.c else x for x in trees[1:]], st),
                     tree_map(I, f, [t.b] + [x.b if isinstance(x, Phi) and x.c is t.c else x for x in trees[1:]], st))
    if is_none(t):
        return NONE

    def sub(x, i, key=None):
        if isinstance(x, Tup):
            return x.items[i]
        if isinstance(x, Ref):
            p = I.get(st, x)
            if isinstance(p, PList):
                return p.items[i]
            if isinstance(p, PDict):
                return p.d[key]
        return x if not isinstance(x, T) else mk("item", x, key if key is not None else i)

    if isinstance(t, Tup) and t.kind in ("tuple", "list", "namedtuple", "gen"):
        return Tup([Splat(tree_map(I, f, [x.value] + trees[1:], st), x.tag) if isinstance(x, Splat) else tree_map(I, f, [sub(q, i) for q in trees], st) for i, x in enumerate(t.items)], t.kind, t.names, t.cls)
    if isinstance(t, Ref):
        p = I.get(st, t)
        if isinstance(p, PList):
            return I.alloc(st, PList([Splat(tree_map(I, f, [x.value] + trees[1:], st), x.tag) if isinstance(x, Splat) else tree_map(I, f, [sub(q, i) for q in trees], st) for i, x in enumerate(p.items)]))
        if isinstance(p, PDict):
            if p.rest is None or p.d:
                return I.alloc(st, PDict({k: tree_map(I, f, [sub(q, 0, k) for q in trees], st) for k in sorted(p.d, key=str)}, None if p.rest is None else mk("app", "tree_map_rest", p.rest)))
            return f([p.rest] + [I.term(x, st) for x in trees[1:]])
    return f(trees)


def m_tree_map(I, a, k, st):
    f = a[0]
    trees = list(a[1:])
    return tree_map(I, lambda xs: I.call(f, xs, {}, None, st), trees, st)


def tree_leaves(I, v, st):
    if is_none(v):
        return []
    if isinstance(v, Tup) and v.kind in ("tuple", "list", "namedtuple"):
        return [y for x in v.items for y in (tree_leaves(I, x, st) if not isinstance(x, Splat) else [x])]
    if isinstance(v, Ref):
        p = I.get(st, v)
        if isinstance(p, PList):
            return [y for x in p.items for y in (tree_leaves(I, x, st) if not isinstance(x, Splat) else [x])]
        if isinstance(p, PDict):
            out = [y for k in sorted(p.d, key=str) for y in tree_leaves(I, p.d[k], st)]
            if p.rest is not None:
                out.append(Splat(mk("leaf", p.rest), ("leaves", p.rest)))
            return out
    return [v]


class TreeDef(V):
    def __init__(self, shape):
        self.shape = shape


def tree_flatten(I, v, st):
    leaves = tree_leaves(I, v, st)
    return Tup([I.alloc(st, PList(leaves)), TreeDef(v)])


def tree_shape(I, v, st):
    """printed structure of a tree"""
    if isinstance(v, Tup) and v.kind in ("tuple", "list", "namedtuple"):
        return (v.kind if v.cls is None else str(v.cls)) + "(" + ", ".join(tree_shape(I, x, st) for x in v.items) + ")"
    if isinstance(v, Ref):
        p = I.get(st, v)
        if isinstance(p, PDict) and p.rest is None:
            return "{" + ", ".join(f"{k}: {tree_shape(I, x, st)}" for k, x in sorted(p.d.items(), key=lambda kv: str(kv[0]))) + "}"
        if isinstance(p, PList):
            return "[" + ", ".join(tree_shape(I, x, st) for x in p.items) + "]"
    if isinstance(v, (Phi, Splat)):
        raise GiveUp("structure of an unknown tree")
    return "None" if isinstance(v, T) and v == NONE else "*"


def tree_unflatten(I, td, leaves, st):
    items = I.iter_items(leaves, st)
    if not isinstance(td, TreeDef) or items is None:
        return mk("app", "tree_unflatten", I.term(td, st), I.term(leaves, st))
    it = iter(items)
    try:
        return tree_map(I, lambda xs: next(it), [td.shape], st)
    except StopIteration:
        raise GiveUp("tree_unflatten: too few leaves")


# ------------------------------------------------------------ lax control
def m_cond(I, a, k, st):
    pred = kwarg(a, k, 0, "pred")
    if "true_operand" in k or "false_operand" in k:
        tf, ff = k["true_fun"], k["false_fun"]
        to, fo = [k["true_operand"]], [k["false_operand"]]
    elif len(a) == 5 and not (isinstance(a[2], (Func, Bound, Py)) and not isinstance(a[4], (Func, Bound, Py))) and isinstance(a[4], (Func, Bound, Py)):
        tf, to, ff, fo = a[2], [a[1]], a[4], [a[3]]
    else:
        tf = kwarg(a, k, 1, "true_fun")
        ff = kwarg(a, k, 2, "false_fun")
        to = fo = list(a[3:]) if len(a) > 3 else ([k["operand"]] if "operand" in k else [])
    c = I.known(boolean(I.truth(pred, st)) if not isinstance(pred, T) else boolean(pred), st)
    if c is TRUE:
        return I.call(tf, to, {}, None, st)
    if c is FALSE:
        return I.call(ff, fo, {}, None, st)
    return I.fork(c, lambda s: I.call(tf, to, {}, None, s), lambda s: I.call(ff, fo, {}, None, s), st)


def elem_of(I, v, tag, st):
    """one element along the first axis of every leaf"""
    if is_none(v):
        return NONE
    return tree_map(I, lambda xs: mk("elem", I.term(xs[0], st), *( (tag,) if tag else ())), [v], st)


def is_known_bool(v):
    return v is TRUE or v is FALSE


def known_length(I, xs, length, st):
    """number of scan steps when every scanned leaf is an explicit sequence"""
    ls = tree_leaves(I, xs, st) if not is_none(xs) else []
    if ls:
        if any(not isinstance(x, Arr) for x in ls):
            return None
        n = {len(x.items) for x in ls}
        return n.pop() if len(n) == 1 and max(n or {0}) <= I.MAX_UNROLL else None
    if length is not None:
        try:
            n = I.pyval(length)
        except KeyError:
            return None
        return n if isinstance(n, int) and n <= I.MAX_UNROLL else None
    return None


def explicit_scan(I, f, init, xs, steps, rev, st):
    carry, ys = init, []
    for t in (reversed(range(steps)) if rev else range(steps)):
        el = NONE if is_none(xs) else tree_map(I, lambda q: q[0].items[t], [xs], st)
        res = I.call(f, [carry, el], {}, None, st)
        carry, y = I.unpack(res, 2, st)
        ys.append(y)
    if rev:
        ys.reverse()
    if not ys or any(is_none(y) for y in ys):
        return Tup([carry, NONE])
    return Tup([carry, tree_map(I, lambda q: Arr(list(q)), ys, st)])


def m_scan(I, a, k, st):
    f = kwarg(a, k, 0, "f")
    init = kwarg(a, k, 1, "init")
    xs = kwarg(a, k, 2, "xs")
    length = kwarg(a, k, 3, "length")
    rev = k.get("reverse", FALSE)
    steps = known_length(I, xs, length, st)
    if steps is not None and is_known_bool(rev):
        return explicit_scan(I, f, init, xs, steps, rev is TRUE, st)
    lid = fresh("scan")
    carry = mirror_tree(I, init, lid + ".carry", st)
    el = elem_of(I, xs, None, st)
    s2 = st.copy()
    s2.pc = st.pc + (mk("inloop", lid),)
    ev0 = len(s2.events)
    res = I.call(f, [carry, el], {}, None, s2)
    nxt, y = I.unpack(res, 2, s2)
    info = {"id": lid, "kind": "scan", "init": init, "carry": carry, "next": nxt, "elem": el, "xs": xs, "y": y, "length": length, "reverse": rev, "events": s2.events[ev0:], "state": s2, "pc": st.pc}
    I.loops[lid] = info
    st.become_keep = None
    pc = st.pc
    st.become(s2)
    st.pc = pc
    fin = tree_map(I, lambda x: mk("final", lid, I.term(x[0], s2)), [nxt], st)
    ys = NONE if is_none(y) else tree_map(I, lambda x: mk("stacked", lid, I.term(x[0], s2)), [y], st)
    return Tup([fin, ys])


def m_fori(I, a, k, st):
    lo, hi, f, init = (list(a) + [None] * 4)[:4]
    lo = lo if lo is not None else k["lower"]
    hi = hi if hi is not None else k["upper"]
    f = f if f is not None else k["body_fun"]
    init = init if init is not None else k["init_val"]
    try:
        l, h = I.pyval(lo), I.pyval(hi)
        if isinstance(l, int) and isinstance(h, int) and h - l <= I.MAX_UNROLL:
            for j in range(l, h):
                init = I.call(f, [const(j), init], {}, None, st)
            return init
    except KeyError:
        pass
    lid = fresh("fori")
    carry = mirror_tree(I, init, lid + ".carry", st)
    i = sym(lid + ".i", int=True)
    s2 = st.copy()
    s2.pc = st.pc + (mk("inloop", lid),)
    ev0 = len(s2.events)
    nxt = I.call(f, [i, carry], {}, None, s2)
    I.loops[lid] = {"id": lid, "kind": "fori", "init": init, "carry": carry, "next": nxt, "lower": lo, "upper": hi, "index": i, "events": s2.events[ev0:], "state": s2, "pc": st.pc}
    pc = st.pc
    st.become(s2)
    st.pc = pc
    return tree_map(I, lambda x: mk("final", lid, I.term(x[0], s2)), [nxt], st)


def mirror_tree(I, v, name, st):
    if isinstance(v, Ref):
        p = I.get(st, v)
        if isinstance(p, PList):
            return I.alloc(st, PList([mirror_tree(I, x, f"{name}.{i}", st) for i, x in enumerate(p.items)]))
        if isinstance(p, PDict):
            return I.alloc(st, PDict({k: mirror_tree(I, x, f"{name}.{k}", st) for k, x in p.d.items()}, p.rest))
        return v
    if isinstance(v, Tup):
        nm = v.names
        return Tup([mirror_tree(I, x, f"{name}.{nm[i] if nm else i}", st) for i, x in enumerate(v.items)], v.kind, v.names, v.cls)
    if is_none(v):
        return NONE
    return I.mirror(v, name)


def vmap_rows(I, f, in_axes, args, kw, s):
    """vmap over explicit arrays: one call per index, results stacked"""
    ax = I.iter_items(in_axes, s) if not isinstance(in_axes, T) else [in_axes] * len(args)
    n = None

    def pick(v, x, i):
        nonlocal n
        if is_none(x) or is_none(v):
            return v
        if x != ZERO:
            raise GiveUp("vmap over another axis")

        def leaf(q):
            nonlocal n
            q = to_arr(I, q[0], s)
            if not isinstance(q, Arr):
                raise GiveUp("vmap over an array of unknown length")
            if n is None:
                n = len(q.items)
            if len(q.items) != n:
                raise AbsRaise("ValueError")
            return q.items[i]

        return tree_map(I, leaf, [v], s)

    rows = []
    i = 0
    while n is None or i < n:
        rows.append(I.call(f, [pick(v, x, i) for v, x in zip(args, ax)], {kk: pick(v, ZERO, i) for kk, v in kw.items()}, None, s))
        if n is None:
            raise GiveUp("vmap without mapped argument")
        i += 1
    return tree_map(I, lambda q: Arr(list(q)), rows, s)


def m_vmap(I, a, k, st):
    f = kwarg(a, k, 0, "fun")
    in_axes = kwarg(a, k, 1, "in_axes", ZERO)
    out_axes = kwarg(a, k, 2, "out_axes", ZERO)

    def run(I, args, kw, s):
        if I.explicit_vmap and out_axes == ZERO:
            return vmap_rows(I, f, in_axes, args, kw, s)
        ax = I.iter_items(in_axes, s) if not isinstance(in_axes, T) else None

        def row(v, x):
            if is_none(x):
                return v
            if not isinstance(x, T) and tree_is_node(I, v, s) and tree_is_node(I, x, s):
                its = I.iter_items(v, s)
                axs = I.iter_items(x, s)
                if len(its) == len(axs):
                    return Tup([row(p, q) for p, q in zip(its, axs)])
            return tree_map(I, lambda q: mk("row", I.term(q[0], s), I.term(x, s)), [v], s)

        margs = []
        for i, v in enumerate(args):
            margs.append(row(v, ax[i] if ax is not None and i < len(ax) else (in_axes if ax is None else ZERO)))
        mkw = {kk: row(v, ZERO) for kk, v in kw.items()}
        I.event(s, "vmap", I.term(f, s), tuple(I.term(x, s) for x in margs))
        r = I.call(f, margs, mkw, None, s)
        return tree_map(I, lambda q: mk("rows", I.term(q[0], s)), [r], s)

    return Py("vmapped", run)


def hk_key(I, st, maybe):
    if I.has_rng is False:
        if maybe:
            return NONE
        raise AbsRaise("ValueError", sure=True)
    return mk("rngkey", I.seqno(st, "rng"))


def m_split(I, a, k, st):
    key = I.term(a[0], st)
    n = kwarg(a, k, 1, "num", const(2))
    if I.is_const(n) and isinstance(I.pyval(n), int) and I.pyval(n) <= 16:
        return Arr([mk("split", key, i) for i in range(I.pyval(n))])
    return mk("splitn", key, I.term(n, st))


def m_vag(I, a, k, st):
    f = a[0]
    has_aux = k.get("has_aux", FALSE)
    argnums = k.get("argnums", ZERO)

    def run(I, args, kw, s):
        I.differentiating = getattr(I, "differentiating", 0) + 1
        try:
            v = I.call(f, args, kw, None, s)
        finally:
            I.differentiating -= 1
        loss = v
        if I.known(I.truth(has_aux, s), s) is TRUE or (I.known(I.truth(has_aux, s), s) is not FALSE and isinstance(v, Tup)):
            loss = I.unpack(v, 2, s)[0]
        lt = I.term(loss, s)
        wrt = args[I.pyval(argnums)] if I.is_const(argnums) else args[0]
        g = tree_map(I, lambda q: mk("grad", lt, I.term(q[0], s)), [wrt], s)
        return Tup([v, g])

    return Py("value_and_grad", run)


def m_grad(I, a, k, st):
    vg = m_vag(I, a, k, st)

    def run(I, args, kw, s):
        r = vg.fn(I, args, kw, s)
        if I.known(I.truth(k.get("has_aux", FALSE), s), s) is TRUE:
            return Tup([r.items[1], I.unpack(r.items[0], 2, s)[1]])
        return r.items[1]

    return Py("grad", run)


# ------------------------------------------------------------------- haiku
def slot_key(I, name, st):
    return f"{I.path[-1] if I.path else ''}/{I.pyval(name)}"


def m_get_state(I, a, k, st):
    name = kwarg(a, k, 0, "name")
    shape = kwarg(a, k, 1, "shape", Tup([]))
    dtype = kwarg(a, k, 2, "dtype", Ext("jax.numpy.float32"))
    init = kwarg(a, k, 3, "init", NONE)
    key = slot_key(I, name, st)
    if key in st.store:
        return st.store[key]
    if is_none(init):
        return I.declare_slot(key, lambda s: mk("opaque", "uninitialised " + key), st)
    return I.declare_slot(key, lambda s: cast_to(I, I.call(init, [shape, dtype], {}, None, s), None), st)


def m_set_state(I, a, k, st):
    key = slot_key(I, a[0], st)
    v = kwarg(a, k, 1, "value")
    I.write_slot(key, v, st)
    return NONE


def m_get_parameter(I, a, k, st):
    key = slot_key(I, a[0], st)
    shape = kwarg(a, k, 1, "shape", Tup([]))
    dtype = kwarg(a, k, 2, "dtype", Ext("jax.numpy.float32"))
    init = kwarg(a, k, 3, "init", NONE)
    return param_value(I, key, lambda s: mk("sym", key, ()) if is_none(init) else I.call(init, [shape, dtype], {}, None, s), st)


def transformed(I, f, st, cls="haiku.TransformedWithState"):
    ft = I.term(f, st)
    if isinstance(f, Tup) and f.names == ("init", "apply"):
        return f
    return Tup([mk("fn", "init", ft), mk("fn", "apply", ft)], "namedtuple", ("init", "apply"), Ext(cls))


def m_transform(cls):
    return lambda I, a, k, st: transformed(I, a[0], st, cls)


def m_partition(I, a, k, st):
    p, x = I.term(a[0], st), I.term(a[1], st)
    return Tup([mk("app", "PART_TRUE", p, x), mk("app", "PART_FALSE", p, x)])


def m_merge(I, a, k, st):
    """union of disjoint parameter trees (order irrelevant); the inverse of partition"""
    ts = sorted((I.term(x, st) for x in a), key=repr)
    if len(ts) == 2 and all(t.op == "app" for t in ts) and {t.args[0] for t in ts} == {"PART_TRUE", "PART_FALSE"} and ts[0].args[1:] == ts[1].args[1:]:
        return ts[0].args[2]
    return mk("app", "MERGE", *ts)


def ident(I, a, k, st):
    return a[0]


def m_stop_gradient(I, a, k, st):
    """identity, except for what a surrounding gradient sees (judge.eq_terms drops the marks that no gradient depends on)"""
    if not getattr(I, "differentiating", 0):
        return a[0]
    terms.MARKED = True
    return tree_map(I, lambda q: mk("constant", I.term(q[0], st)), [a[0]], st)


def m_partial(I, a, k, st):
    f, pre, kw0 = a[0], list(a[1:]), dict(k)
    return Py("partial", lambda I, b, kw, s: I.call(f, pre + list(b), {**kw0, **kw}, None, s), {"func": f})


def m_namedtuple(I, a, k, st):
    name = I.pyval(a[0])
    fs = a[1]
    if isinstance(fs, T):
        names = I.pyval(fs).replace(",", " ").split()
    else:
        its = I.iter_items(fs, st)
        if any(isinstance(x, Splat) for x in its):
            raise GiveUp("namedtuple with conditional fields")
        names = [I.pyval(x) for x in its]
    return NTCls(name, tuple(names))


def m_apply_updates(I, a, k, st):
    return tree_map(I, lambda xs: mk("add", I.term(xs[0], st), I.term(xs[1], st)), [a[0], a[1]], st)


def m_opaque_app(name):
    def f(I, a, k, st):
        return mk("app", name, *[I.term(x, st) for x in a], *[mk("kw", kk, I.term(v, st)) for kk, v in sorted(k.items())])

    return f


def m_cast(I, a, k, st):
    return a[1]


EXT = {
    "jax.tree_util.tree_map": m_tree_map,
    "jax.tree_util.tree_leaves": lambda I, a, k, st: I.alloc(st, PList(tree_leaves(I, a[0], st))),
    "jax.tree_util.tree_flatten": lambda I, a, k, st: tree_flatten(I, a[0], st),
    "jax.tree_util.tree_structure": lambda I, a, k, st: TreeDef(a[0]),
    "jax.tree_util.tree_unflatten": lambda I, a, k, st: tree_unflatten(I, a[0], a[1], st),
    "jax.lax.cond": m_cond, "haiku.cond": m_cond, "flax.linen.cond": lambda I, a, k, st: m_cond(I, a, k, st),
    "jax.lax.scan": m_scan, "haiku.scan": m_scan, "jax.lax.fori_loop": m_fori, "haiku.fori_loop": m_fori,
    "jax.lax.select": m_where, "jax.lax.stop_gradient": m_stop_gradient, "jax.vmap": m_vmap, "jax.jit": ident, "jax.checkpoint": ident, "jax.block_until_ready": ident,
    "jax.random.split": m_split, "jax.value_and_grad": m_vag, "jax.grad": m_grad, "haiku.value_and_grad": m_vag, "haiku.grad": m_grad,
    "jax.random.PRNGKey": lambda I, a, k, st: mk("prngkey", *[I.term(x, st) for x in a]),
    "jax.random.key": lambda I, a, k, st: mk("prngkey", *[I.term(x, st) for x in a]),
    "jax.random.fold_in": lambda I, a, k, st: mk("fold_in", *[I.term(x, st) for x in a]),
    "jax.device_put": ident, "jax.device_get": ident,
    "haiku.get_state": m_get_state, "haiku.set_state": m_set_state, "haiku.get_parameter": m_get_parameter,
    "haiku.PRNGSequence": lambda I, a, k, st: I.alloc(st, PInst(Ext("haiku.PRNGSequence"), {"key": I.term(a[0], st), "n": ZERO}, None)),
    "haiku.next_rng_key": lambda I, a, k, st: hk_key(I, st, False), "haiku.maybe_next_rng_key": lambda I, a, k, st: hk_key(I, st, True),
    "haiku.maybe_get_rng_sequence_state": lambda I, a, k, st: NONE if I.has_rng is False else mk("rngstate", I.seqno(st, "rngstate")),
    "haiku.running_init": lambda I, a, k, st: I.running_init,
    "haiku.transform": m_transform("haiku.Transformed"), "haiku.transform_with_state": m_transform("haiku.TransformedWithState"),
    "haiku.without_state": lambda I, a, k, st: a[0], "haiku.without_apply_rng": lambda I, a, k, st: a[0], "haiku.with_empty_state": lambda I, a, k, st: a[0],
    "haiku.TransformedWithState": lambda I, a, k, st: Tup([kwarg(a, k, 0, "init"), kwarg(a, k, 1, "apply")], "namedtuple", ("init", "apply"), Ext("haiku.TransformedWithState")),
    "haiku.data_structures.partition": m_partition, "haiku.data_structures.merge": m_merge, "haiku.data_structures.to_mutable_dict": ident, "haiku.data_structures.to_haiku_dict": ident,
    "haiku.data_structures.to_immutable_dict": ident, "haiku._src.base.current_frame": lambda I, a, k, st: hk_current_frame(I, st),
    "haiku._src.base.frame_stack": lambda I, a, k, st: TRUE,
    "functools.partial": m_partial, "functools.wraps": lambda I, a, k, st: Py("wraps", lambda I, b, kw, s: b[0]),
    "collections.namedtuple": m_namedtuple, "typing.cast": m_cast,
    "optax.apply_updates": m_apply_updates, "copy.deepcopy": lambda I, a, k, st: deepcopy(I, a[0], st), "copy.copy": lambda I, a, k, st: a[0],
    "warnings.warn": lambda I, a, k, st: NONE, "dataclasses.replace": lambda I, a, k, st: replace_(I, a[0], k, st),
    "flax.linen.initializers.constant": lambda I, a, k, st: Py("constant", lambda I, b, kw, s, v=a[0]: v), "jax.nn.initializers.constant": lambda I, a, k, st: Py("constant", lambda I, b, kw, s, v=a[0]: v),
    "flax.linen.initializers.zeros": lambda I, a, k, st: ZERO,
    "math.fmod": bin_("fmod"), "math.trunc": lambda I, a, k, st: I.lift(lambda x: const(int(x.args[0])) if x.op == "num" else mk("toint", x), a[0], st=st),
    "html.escape": lambda I, a, k, st: html_escape(I, a, k, st),
    "math.log": lambda I, a, k, st: mk("log", I.term(a[0], st)), "math.exp": lambda I, a, k, st: mk("exp", I.term(a[0], st)), "math.sqrt": lambda I, a, k, st: mk("sqrt", I.term(a[0], st)), "math.isnan": lambda I, a, k, st: mk("isnan", I.term(a[0], st)),
    "statistics.mean": lambda I, a, k, st: stat(I, a[0], st, "mean"), "statistics.fmean": lambda I, a, k, st: stat(I, a[0], st, "mean"), "statistics.median": lambda I, a, k, st: stat(I, a[0], st, "median"),
    "statistics.median_low": lambda I, a, k, st: stat(I, a[0], st, "median_low"), "statistics.median_high": lambda I, a, k, st: stat(I, a[0], st, "median_high"),
    "statistics.stdev": lambda I, a, k, st: stat(I, a[0], st, "stdev"), "statistics.pstdev": lambda I, a, k, st: stat(I, a[0], st, "pstdev"), "statistics.variance": lambda I, a, k, st: stat(I, a[0], st, "variance"), "statistics.pvariance": lambda I, a, k, st: stat(I, a[0], st, "pvariance"),
    "flax.core.freeze": ident, "flax.core.unfreeze": ident, "flax.core.FrozenDict": lambda I, a, k, st: b_dict(I, a, k, st), "flax.core.frozen_dict.FrozenDict": lambda I, a, k, st: b_dict(I, a, k, st), "collections.OrderedDict": lambda I, a, k, st: b_dict(I, a, k, st),
    "collections.deque": lambda I, a, k, st: make_deque(I, a, k, st),
    "collections.defaultdict": lambda I, a, k, st: I.alloc(st, PDict(I.get(st, a[1]).d if len(a) > 1 else {}, None, a[0] if a and not is_none(a[0]) else None)),
    "jax.nn.one_hot": m_opaque_app("one_hot"),
    "flax.traverse_util.flatten_dict": m_flatten_dict, "flax.traverse_util.unflatten_dict": m_unflatten_dict,
    "jax.lax.dynamic_index_in_dim": lambda I, a, k, st: mk("index", I.term(a[0], st), I.term(a[1], st), I.term(kwarg(a, k, 2, "axis", ZERO), st), I.term(kwarg(a, k, 3, "keepdims", TRUE), st)),
    "jax.lax.dynamic_update_index_in_dim": lambda I, a, k, st: mk("upd_index", *[I.term(x, st) for x in a]),
}


def deepcopy(I, v, st):
    if isinstance(v, Ref):
        p = I.get(st, v)
        if isinstance(p, PList):
            return I.alloc(st, PList([deepcopy(I, x, st) for x in p.items]))
        if isinstance(p, PDict):
            return I.alloc(st, PDict({k: deepcopy(I, x, st) for k, x in p.d.items()}, p.rest))
    return v


def replace_(I, o, k, st):
    if isinstance(o, Ref):
        p = I.get(st, o)
        return I.alloc(st, PInst(p.cls, {**p.attrs, **k}, p.path))
    if isinstance(o, Tup):
        return Tup([k.get(nm, v) for nm, v in zip(o.names, o.items)], o.kind, o.names, o.cls)
    return mk("app", "replace", I.term(o, st))


# ---------------------------------------------------------------- builtins
def b_len(I, a, k, st):
    v = a[0]
    if isinstance(v, Arr):
        return const(len(v.items))
    if isinstance(v, Ref) and isinstance(I.get(st, v), PInst):
        f = I.getattr_opt(v, "__len__", st)
        if f is not None:
            return I.call(f, [], {}, None, st)
    if isinstance(v, T) and v.op == "obj" and isinstance(v.args[0], bytes):
        return const(len(v.args[0]))
    items = I.iter_items(v, st)
    if items is not None and not any(isinstance(x, Splat) for x in items):
        return const(len(items))
    return mk("len", I.term(v, st))


def b_range(I, a, k, st):
    try:
        r = range(*[int(I.pyval(x)) for x in a])
        if len(r) <= I.MAX_UNROLL:
            return Tup([const(i) for i in r])
    except (KeyError, TypeError, ValueError):
        pass
    return mk("range", *[I.term(x, st) for x in a])


def b_enumerate(I, a, k, st):
    items = I.iter_items(a[0], st)
    start = 0
    if len(a) > 1 or "start" in k:
        s = kwarg(a, k, 1, "start")
        if not I.is_const(s):
            return mk("enumerate", I.term(a[0], st))
        start = I.pyval(s)
    if items is None:
        return Tup([Splat(Tup([mk("count", I.term(a[0], st)), I.element(a[0], st)]), ("elems", I.term(a[0], st)))])
    out = []
    for i, x in enumerate(items):
        if isinstance(x, Splat):
            out.append(Splat(Tup([mk("count", I.term(x.value, st)), x.value]), x.tag))
        else:
            out.append(Tup([const(i + start), x]))
    return Tup(out)


def b_zip(I, a, k, st):
    cols = [I.iter_items(x, st) for x in a]
    if all(c is not None for c in cols):
        if not any(isinstance(x, Splat) for c in cols for x in c):
            return Tup([Tup(r) for r in zip(*cols)])
        # aligned runs
        if len({len(c) for c in cols}) == 1:
            out = []
            for r in zip(*cols):
                if any(isinstance(x, Splat) for x in r):
                    out.append(Splat(Tup([x.value if isinstance(x, Splat) else x for x in r]), next(x.tag for x in r if isinstance(x, Splat))))
                else:
                    out.append(Tup(r))
            return Tup(out)
    els = []
    for x, c in zip(a, cols):
        if c is None:
            els.append(I.element(x, st))
        else:
            els.append(mk("elem", I.term(x, st)))
    return Tup([Splat(Tup(els), ("zip", *[I.term(x, st) for x in a]))])


def b_list(kind):
    def f(I, a, k, st):
        if not a:
            return I.alloc(st, PList([])) if kind == "list" else I.make_set([], st) if kind == "set" else Tup([], kind)
        items = I.seq_items(a[0], st)
        if kind == "set":
            return I.make_set(items, st)
        return I.alloc(st, PList(items)) if kind == "list" else Tup(items, kind)

    return f


def b_dict(I, a, k, st):
    d, rest = {}, None
    if a:
        v = a[0]
        if isinstance(v, Ref) and isinstance(I.get(st, v), PDict):
            p = I.get(st, v)
            d.update(p.d)
            rest = p.rest
        else:
            items = I.iter_items(v, st)
            if items is None:
                rest = I.term(v, st)
            else:
                for x in items:
                    if isinstance(x, Splat):
                        rest = mk("dictof", I.term(x.value, st))
                        continue
                    kk, vv = I.unpack(x, 2, st)
                    dk = I.dkey(kk)
                    if dk is None:
                        rest = mk("opaque", "dict key")
                    else:
                        d[dk] = vv
    d.update({x: y for x, y in k.items() if x != "**"})
    return I.alloc(st, PDict(d, rest))


def class_names(I, c, st):
    if isinstance(c, Tup):
        return [y for x in c.items for y in class_names(I, x, st)]
    if isinstance(c, Ref):
        return [y for x in I.iter_items(c, st) for y in class_names(I, x, st)]
    return [c]


def html_escape(I, a, k, st):
    import html
    t = I.term(a[0], st)
    if t.op == "obj" and isinstance(t.args[0], str):
        return const(html.escape(t.args[0], *([I.pyval(I.term(x, st)) for x in a[1:]]), **{n: I.pyval(I.term(x, st)) for n, x in k.items()}))
    return mk("app", "html.escape", t)


def stat(I, v, st, what):
    """functions of the statistics module on a list of known length (numbers except for the mean)"""
    x = [I.term(y, st) for y in I.iter_items(v, st)]
    n = len(x)
    if n < (2 if what in ("stdev", "variance") else 1):
        raise AbsRaise("StatisticsError", sure=True)
    if what == "mean":
        r = x[0]
        for y in x[1:]:
            r = mk("add", r, y)
        return mk("div", r, const(n))
    if any(y.op != "num" for y in x):
        return mk("app", "statistics." + what, *x)
    c = sorted(y.args[0] for y in x)
    if what in ("median_low", "median_high"):
        return const(c[(n - 1) // 2 if what == "median_low" else n // 2])
    if what == "mode":
        return const(max(c, key=lambda v: c.count(v))) if len({c.count(v) for v in c}) == 1 and len(set(c)) == 1 else mk("app", "statistics.mode", *x)
    if what == "median":
        return const(c[n // 2]) if n % 2 else const(Fraction(c[n // 2 - 1] + c[n // 2]) / 2)
    m = Fraction(sum(c)) / n
    q = const(Fraction(sum((y - m) ** 2 for y in c)) / (n if what[0] == "p" else n - 1))
    return q if what.endswith("variance") else mk("sqrt", q)


ARRAYISH = {"numpy.ndarray", "jax.numpy.ndarray", "jax.Array", "jax.numpy.array", "jax.numpy.generic"}


def b_str(I, a, st):
    try:
        y = I.pydata(a[0], st)
        if not isinstance(y, float):
            return const(str(y))
    except KeyError:
        pass
    return mk("app", "str", *[I.term(x, st) for x in a])


def b_isinstance(I, a, k, st):
    v, cs = a[0], class_names(I, a[1], st)
    if isinstance(v, Phi):
        return ite(v.c, b_isinstance(I, [v.a, a[1]], k, st), b_isinstance(I, [v.b, a[1]], k, st))
    names = {c.name for c in cs if isinstance(c, Ext)}
    short = {n.split(".")[-1] for n in names}
    for h in I.assume.get("isinstance", ()):
        r = h(v, cs, names)
        if r is not None:
            return const(r)
    if isinstance(v, Tup):
        if v.kind == "list":
            return const("builtins.list" in names)
        if v.cls is not None:
            if isinstance(v.cls, Ext):
                return const(v.cls.name.split(".")[-1] in short or "builtins.tuple" in names)
            return const(any(v.cls == c for c in cs) or "builtins.tuple" in names)
        return const("builtins.tuple" in names)
    if isinstance(v, Ref) and getattr(I, "is_nd", None) and I.is_nd(v, st) and all(isinstance(c, (Ext, Cls)) for c in cs):
        return const("numpy.ndarray" in names)   # not an array of JAX
    if isinstance(v, Ref):
        p = I.get(st, v)
        if isinstance(p, PSet):
            return const("builtins.set" in names)
        if isinstance(p, PList):
            return const("builtins.list" in names)
        if isinstance(p, PDict):
            return const(bool(short & {"dict", "Mapping", "MutableMapping", "FrozenDict"}))
        if isinstance(p, PInst):
            mro = I.mro(p.cls) if isinstance(p.cls, Cls) else [p.cls]
            return const(any(m == c for m in mro for c in cs))
    if isinstance(v, Arr):
        return const(bool(names & ARRAYISH))
    if isinstance(v, (Func, Bound, Py)):
        return const(bool(short & {"Callable", "FunctionType"}))
    if isinstance(v, (Cls, NTCls)):
        return const("builtins.type" in names)
    if isinstance(v, T):
        if v.op == "obj":
            o = v.args[0]
            m = {"str": str, "int": int, "float": float, "bool": bool, "dict": dict, "tuple": tuple, "list": list}
            if o is None:
                return const("NoneType" in short)
            if isinstance(o, tuple):
                return FALSE
            return const(any(s in m and isinstance(o, m[s]) for s in short))
        if v.op == "num":
            f = v.args[0]
            return const(("builtins.int" in names and f.denominator == 1) or "builtins.float" in names)
        if v.op == "bool":
            return const(bool(names & {"builtins.bool", "builtins.int"}))
        fl = dict(v.args[1]) if v.op == "sym" else {}
        cl = fl.get("cls")
        if cl is not None:
            return const(cl in short)
        if fl.get("lib") == "numpy" and names & ARRAYISH:
            return const("numpy.ndarray" in names)   # not an array of JAX
        if names & ARRAYISH:
            return TRUE
        if I.scalars and cs and all(isinstance(c, Cls) or isinstance(c, Ext) and c.name.split(".")[-1] in ("DataFrame", "Series", "Dataset", "DataArray", "Variable") for c in cs):
            return FALSE
        if I.scalars and v.op == "app" and free_name(v.args[0]) and cs and short <= {"str", "dict", "list", "tuple", "Mapping"}:
            return FALSE   # the outputs of free functions are arrays
        if short <= {"str", "dict", "list", "tuple", "Mapping", "int", "float", "bool", "type"} and fl.get("array"):
            return FALSE
    return mk("isinstance", I.term(v, st), mk("obj", tuple(sorted(short | {c.qual for c in cs if isinstance(c, Cls)}))))


ARRAY_ATTRS = {"shape", "dtype", "ndim", "size", "nbytes", "itemsize", "astype", "reshape", "mean", "sum", "copy", "tolist", "item", "T", "__array__", "__len__", "__iter__", "__getitem__"}


def b_hasattr(I, a, k, st):
    v = a[0]
    nm = I.pyval(a[1])
    if isinstance(v, Phi):
        return ite(v.c, b_hasattr(I, [v.a, a[1]], k, st), b_hasattr(I, [v.b, a[1]], k, st))
    if isinstance(v, T):
        fl = dict(v.args[1]) if v.op == "sym" else {}
        if "hasattr" in fl:
            return const(nm in fl["hasattr"])
        if fl.get("array") and nm in ARRAY_ATTRS:
            return TRUE
        if v.op == "obj" and isinstance(v.args[0], str):
            return const(hasattr("", nm))
        if v.op in ("num", "bool") and I.concrete:
            return const(hasattr(True if v.op == "bool" else 1 if v.args[0].denominator == 1 else 1.5, nm))
        if nm == "nbytes" and (v.op == "sym" and not fl or v.op == "app" and free_name(v.args[0])):
            return TRUE   # unspecified data are arrays, as for isinstance
        return mk("hasattr", v, nm)
    if isinstance(v, Ref) and isinstance(I.get(st, v), PInst):
        p = I.get(st, v)
        if nm in p.attrs:
            return TRUE
        return const(I.class_member(p.cls, nm, st)[0] is not None or (is_flax_module(I, p.cls) and nm in ("init", "apply", "variable", "variables")))
    if isinstance(v, Ref) and isinstance(I.get(st, v), PList):
        return const(hasattr([], nm))
    if isinstance(v, Ref) and isinstance(I.get(st, v), PDict) and (hasattr({}, nm) or nm in ("shape", "dtype", "ndim", "size", "nbytes", "tolist", "init", "apply")):
        return const(hasattr({}, nm))
    if isinstance(v, (Func, Bound, Py)):
        return const(nm in ("__name__", "__call__", "__doc__") or isinstance(v, Py) and nm in v.attrs)
    if isinstance(v, Tup):
        return const(bool(v.names) and (nm in v.names or nm in ("_fields", "_replace", "_asdict", "_make")) or hasattr([] if v.kind == "list" else (), nm))
    if isinstance(v, Arr) and nm in ("__len__", "shape", "dtype", "ndim", "size", "copy", "__iter__", "__getitem__", "reshape", "tolist", "items", "keys", "values", "_fields", "append", "__dict__"):
        return const(nm not in ("items", "keys", "values", "_fields", "append", "__dict__"))
    return mk("hasattr", I.term(v, st), nm)


def b_getattr(I, a, k, st):
    nm = a[1]
    if not I.is_const(nm):
        return mk("app", "getattr", *[I.term(x, st) for x in a])
    r = I.getattr_opt(a[0], I.pyval(nm), st)
    if r is None and len(a) > 2:
        return a[2]
    if r is None:
        raise GiveUp("getattr")
    return r


def b_type(I, a, k, st):
    v = a[0]
    if isinstance(v, Tup) and v.cls is not None:
        return v.cls
    if isinstance(v, Ref) and isinstance(I.get(st, v), PInst):
        return I.get(st, v).cls
    n = None
    if isinstance(v, Tup) and not v.names and v.kind in ("tuple", "list"):
        n = v.kind
    elif isinstance(v, Ref):
        p = I.get(st, v)
        n = "dict" if isinstance(p, PDict) else "set" if isinstance(p, PSet) else "list" if isinstance(p, PList) and not p.deque and p.maxlen is None else None
    if n:
        return Ext("builtins." + n)
    return mk("type", I.term(v, st))


def b_minmax(op):
    def f(I, a, k, st):
        items = a
        if len(a) == 1:
            items = I.iter_items(a[0], st)
            if items is None or any(isinstance(x, Splat) for x in items):
                return mk("app", op, I.term(a[0], st))
        if not items and len(a) == 1:
            if "default" in k:
                return k["default"]
            raise AbsRaise("ValueError", sure=True)
        if "key" in k:
            return mk("app", op + "_by", mk("tuple", *[I.term(x, st) for x in items]), I.term(k["key"], st))
        r = items[0]
        for x in items[1:]:
            r = I.lift(lambda p, q: const((max if op == "max" else min)(p.args[0], q.args[0])) if p.op == "num" and q.op == "num" else mk(op, p, q), r, x)
        return r

    return f


def b_sum(I, a, k, st):
    items = I.iter_items(a[0], st)
    if items is None or any(isinstance(x, Splat) for x in items):
        return mk("app", "sum", I.term(a[0], st))
    r = a[1] if len(a) > 1 else ZERO
    for x in items:
        r = I.binop("Add", r, x, st)
    return r


def b_int(I, a, k, st):
    if not a:
        return ZERO
    v = a[0]
    if isinstance(v, T) and v.op == "num":
        return const(int(v.args[0]))
    if I.exact_casts:
        return I.lift(lambda x: fold_cast("int", x), v)
    return I.lift(lambda x: mk("toint", x), v)


def b_callable(I, a, k, st):
    v = a[0]
    if isinstance(v, (Func, Bound, Py, Cls)):
        return TRUE
    if isinstance(v, Ref) and isinstance(I.get(st, v), PInst):
        return const(I.class_member(I.get(st, v).cls, "__call__", st)[0] is not None)
    if isinstance(v, T) and v.op in ("sym", "fn", "attr"):
        fl = dict(v.args[1]) if v.op == "sym" else {}
        if fl.get("callable") or v.op != "sym":
            return TRUE
    return mk("callable", I.term(v, st))


def b_map(I, a, k, st):
    cols = b_zip(I, a[1:], {}, st)
    out = []
    for x in cols.items:
        if isinstance(x, Splat):
            out.append(Splat(I.call(a[0], list(x.value.items), {}, None, st), x.tag))
        else:
            out.append(I.call(a[0], list(x.items), {}, None, st))
    return Tup(out, "gen")


def b_iter(I, a, k, st):
    if isinstance(a[0], Ref) and not isinstance(I.get(st, a[0]), PList):
        return a[0]
    items = I.iter_items(a[0], st)
    if items is None:
        return a[0]
    return I.alloc(st, PList(items))


def prng_next(I, o, st):
    p = I.get(st, o)
    n = I.pyval(p.attrs["n"])
    st.heap[o.i] = PInst(p.cls, {**p.attrs, "n": const(n + 1)}, p.path)
    return mk("split", p.attrs["key"], n)


def b_next(I, a, k, st):
    if isinstance(a[0], Ref) and isinstance(I.get(st, a[0]), PInst) and I.get(st, a[0]).cls == Ext("haiku.PRNGSequence"):
        return prng_next(I, a[0], st)
    items = I.iter_items(a[0], st)
    if items and not isinstance(items[0], Splat):
        if isinstance(a[0], Ref) and isinstance(I.get(st, a[0]), PList):
            st.heap[a[0].i] = PList(items[1:])
        return items[0]
    if items == []:
        if len(a) > 1:
            return a[1]
        raise AbsRaise("StopIteration", I.concrete)
    return mk("app", "next", I.term(a[0], st))


def b_anyall(kind):
    def f(I, a, k, st):
        items = I.iter_items(a[0], st)
        if items is None or any(isinstance(x, Splat) for x in items):
            return mk("truth", mk("app", kind, I.term(a[0], st)))
        r = FALSE if kind == "any" else TRUE
        for x in items:
            t = I.truth(x, st)
            r = or_(r, t) if kind == "any" else and_(r, t)
        return r

    return f


def b_reversed(I, a, k, st):
    items = I.iter_items(a[0], st)
    if items is None:
        return mk("app", "reversed", I.term(a[0], st))
    return Tup(tuple(reversed(items)))


def b_sorted(I, a, k, st):
    items = I.iter_items(a[0], st)
    if items is not None and not set(k) - {"key", "reverse"} and not any(isinstance(x, Splat) for x in items):
        try:
            key = k.get("key", NONE)
            back = bool(I.pyval(k["reverse"])) if "reverse" in k else False
            vals = [I.pyval(x if key == NONE else I.call(key, [x], {}, None, st)) for x in items]
            order = sorted(range(len(items)), key=lambda i: vals[i], reverse=back)
            return I.alloc(st, PList([items[i] for i in order]))
        except (KeyError, TypeError, AttributeError):
            pass
    return mk("app", "sorted", I.term(a[0], st), *[mk("kw", kk, I.term(v, st)) for kk, v in sorted(k.items())])


def b_abs(I, a, k, st):
    return I.lift(lambda x: const(abs(x.args[0])) if x.op == "num" else mk("abs", x), a[0])


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "list": b_list("list"), "tuple": b_list("tuple"), "set": b_list("set"), "frozenset": b_list("set"), "dict": b_dict,
    "isinstance": b_isinstance, "hasattr": b_hasattr, "getattr": b_getattr, "type": b_type, "max": b_minmax("max"), "min": b_minmax("min"), "sum": b_sum, "int": b_int,
    "float": lambda I, a, k, st: a[0] if a else ZERO, "bool": lambda I, a, k, st: I.truth(a[0], st) if a else FALSE, "callable": b_callable, "map": b_map, "next": b_next, "iter": b_iter,
    "any": b_anyall("any"), "all": b_anyall("all"), "reversed": b_reversed, "sorted": b_sorted, "abs": b_abs, "print": lambda I, a, k, st: (I.event(st, "io", "print"), NONE)[1],
    "str": lambda I, a, k, st: const("PyTreeDef(" + tree_shape(I, a[0].shape, st) + ")") if a and isinstance(a[0], TreeDef) else b_str(I, a, st) if a else const(""),
    "setattr": lambda I, a, k, st: (I.setattr(a[0], I.pyval(a[1]), a[2], st), NONE)[1], "slice": lambda I, a, k, st: Tup(([NONE] + list(a) + [NONE] * 2)[:3] if len(a) == 1 else (list(a) + [NONE] * 2)[:3], "slice"),
    "id": lambda I, a, k, st: mk("app", "id", I.term(a[0], st)), "repr": lambda I, a, k, st: mk("app", "repr", *[I.term(x, st) for x in a]), "vars": lambda I, a, k, st: I.getattr(a[0], "__dict__", st),
    "pow": lambda I, a, k, st: I.binop("Pow", a[0], a[1], st), "round": lambda I, a, k, st: const(round(a[0].args[0])) if len(a) == 1 and not k and isinstance(a[0], T) and a[0].op == "num" else mk("app", "round", *[I.term(x, st) for x in a]),
}


def call_ext(I, name, a, k, st, node=None):
    name = canon_name(name)
    h = I.handlers.get(name)
    if h is not None:
        return h(I, a, k, st)
    if name.startswith("jax.numpy."):
        f = JNP.get(name[10:])
        if f is not None and not any(isinstance(x, Splat) for x in a):
            return f(I, list(a), k, st)
        return mk("app", name, *[I.term(x, st) for x in a], *[mk("kw", kk, I.term(v, st)) for kk, v in sorted(k.items())])
    f = EXT.get(name)
    if f is not None:
        return f(I, list(a), k, st)
    if name.startswith("builtins."):
        f = BUILTINS.get(name[9:])
        if f is not None:
            return f(I, list(a), k, st)
    if name == "builtins.dict.fromkeys":
        items = I.iter_items(a[0], st)
        if items is None or any(isinstance(x, Splat) for x in items):
            raise GiveUp("dict.fromkeys of an unknown iterable")
        return I.alloc(st, PDict({I.pyval(x): a[1] if len(a) > 1 else NONE for x in items}))
    if name.startswith("builtins.") and name[9:] in ("ValueError", "TypeError", "RuntimeError", "KeyError", "NotImplementedError", "AssertionError", "Exception"):
        return mk("obj", ("exc", name))
    I.event(st, "ext", name, tuple(I.term(x, st) for x in a), getattr(node, "lineno", 0))
    return mk("app", name, *[I.term(x, st) for x in a], *[mk("kw", kk, I.term(v, st)) for kk, v in sorted(k.items())])


def construct_ext(I, c, ref, args, kwargs, st):
    p = I.get(st, ref)
    if args or kwargs:
        st.heap[ref.i] = PInst(p.cls, {**p.attrs, "__args": Tup(args), **{("__kw_" + k): v for k, v in kwargs.items()}}, p.path)
    return ref


def inst_call(I, ref, p, args, kwargs, st):
    return None


def class_attr(I, o, name, st):
    for e in mro_ext(I, o):
        if name == "__init__":
            return Py("__init__", lambda I, a, k, s: NONE)
        return mk("attr", I.term(o, st), name)
    return None


# ------------------------------------------------------------ attributes
def shape_of(I, v, st):
    if isinstance(v, Arr) and I.scalar_items and nd.rect(v):
        return Tup([const(n) for n in nd.shape(v)])
    if isinstance(v, Arr):
        inner = shape_of(I, v.items[0], st) if v.items else Tup([])
        if isinstance(inner, Tup):
            return Tup((const(len(v.items)),) + inner.items)
        return Tup([const(len(v.items)), Splat(inner, ("shape", inner))])
    if I.scalars and isinstance(v, T):
        return Tup([])
    return mk("shape", v)


def dtype_of(o):
    if o.op == "sym" and dict(o.args[1]).get("dtype"):
        return Ext("dtype:jax.numpy." + dict(o.args[1])["dtype"])
    return mk("dtype", o)


def term_attr(I, o, name, st):
    h = getattr(I, "term_hook", None)
    if h is not None:
        r = h(I, o, name, st)
        if r is not None:
            return r
    if o.op == "obj" and o.args[0] is None:
        raise AbsRaise("AttributeError")
    if o.op == "obj" and isinstance(o.args[0], str):
        return str_attr(I, o, name)
    if I.scalars and name in ("shape", "ndim", "size") and o.op not in ("obj", "attr"):
        return Tup([]) if name == "shape" else const(int(name == "size"))
    if name == "shape":
        if o.op == "num" or o.op == "nan":
            return Tup([])
        return mk("shape", o)
    if name == "dtype":
        return dtype_of(o)
    if name == "ndim":
        return mk("ndim", o)
    if name == "size":
        return mk("size", o)
    if name == "T":
        return mk("transpose", o)
    if name == "at":
        return AtRef(o)
    if name in ("sum", "mean", "max", "min", "any", "all", "prod", "std", "astype", "reshape", "flatten", "ravel", "squeeze", "copy", "item", "block_until_ready", "clip", "dot", "round", "tolist") and o.op not in ("obj", "attr") and not (o.op == "sym" and dict(o.args[1]).get("obj")):
        return Py("." + name, lambda I, a, k, s: arr_method(I, o, name, a, k, s))
    if o.op == "ite":
        a, b = I.getattr_opt(o.args[1], name, st), I.getattr_opt(o.args[2], name, st)
        return I.phi(o.args[0], a, b)
    return mk("attr", o, name)


def str_attr(I, o, name):
    s = o.args[0]

    def run(I, a, k, st):
        try:
            if name == "join" and len(a) == 1:
                it = I.iter_items(a[0], st)
                vals = [[I.pyval(x) for x in it]] if it is not None and not any(isinstance(x, Splat) for x in it) else [I.pyval(a[0])]
            else:
                vals = [I.pydata(x, st) for x in a]
            r = getattr(s, name)(*vals)
            if isinstance(r, list):
                return I.alloc(st, PList([const(x) for x in r]))
            return const(r)
        except (KeyError, TypeError, AttributeError):
            return mk("app", "str." + name, o, *[I.term(x, st) for x in a])

    return Py("str." + name, run)


class AtRef(V):
    def __init__(self, o, idx=None):
        self.o, self.idx = o, idx


def arr_attr(I, o, name, st):
    if name == "shape":
        return shape_of(I, o, st)
    if name == "dtype":
        return I.getattr_opt(o.items[0], "dtype", st) if o.items else mk("dtype", NONE)
    if name == "ndim":
        return const(nd.rank(o)) if I.scalar_items and nd.rect(o) else mk("ndim", I.term(o))
    if name == "size":
        return const(len(nd.flat(o))) if I.scalar_items and nd.rect(o) else mk("size", I.term(o))
    if name == "at":
        return AtRef(o)
    if name == "T" and I.scalar_items and nd.rect(o):
        return nd.transpose(o)
    if name == "T":
        return o if not any(isinstance(x, Arr) for x in o.items) else mk("transpose", I.term(o))
    return Py("." + name, lambda I, a, k, s: arr_method(I, o, name, a, k, s))


def arr_method(I, o, name, a, k, st):
    if I.scalars and isinstance(o, T) and name == "reshape":
        o = Arr([o])
        tgt = list(a) if len(a) != 1 or isinstance(a[0], T) else I.seq_items(a[0], st)
        if all(I.is_const(x) and I.pyval(x) in (1, -1) for x in tgt):
            return nd.reshape(o, [1] * len(tgt)) if tgt else o.items[0]
    if name in ("sum", "mean", "max", "min", "any", "all", "prod"):
        return reduce_(I, name, o, kwarg(a, k, 0, "axis"), st, k.get("keepdims"))
    if name == "astype":
        return cast_to(I, o, kwarg(a, k, 0, "dtype"))
    if name == "tolist" and isinstance(o, Arr) and I.scalar_items:
        def nest(x):
            return I.alloc(st, PList([nest(y) for y in x.items])) if isinstance(x, Arr) else x
        return nest(o)
    if name in ("copy", "block_until_ready", "item", "tolist"):
        return o
    if name in ("flatten", "ravel", "reshape") and isinstance(o, Arr):
        order = k.get("order", a[0] if name != "reshape" and a else None)
        if order is not None and not (I.is_const(order) and I.pyval(order) == "C"):
            if not I.is_const(order) or not nd.rect(o):
                raise GiveUp("memory order")
            order = I.pyval(order)
            if order == "K" and nd.rank(o) > 2:
                raise GiveUp("memory order K")
            if order == "F" or (order in ("A", "K") and I.memory_order == "F"):
                # Fortran order: first index changes fastest
                t = arr_method(I, nd.transpose(o), "flatten", [], {}, st)
                if name != "reshape":
                    return t
                dims = list(a)
                if len(dims) == 1 and isinstance(dims[0], (Tup, Ref)):
                    its = I.iter_items(dims[0], st)
                    dims = dims if its is None else its
                dims = [int(I.pyval(x)) for x in dims]
                return nd.transpose(nd.reshape(t, dims[::-1]))
            if order not in ("A", "K"):
                raise GiveUp("memory order")
        a = [] if name != "reshape" else a
    if name == "reshape" and I.scalar_items and isinstance(o, Arr) and nd.rect(o):
        dims = list(a)
        if len(dims) == 1 and isinstance(dims[0], (Tup, Ref)):
            its = I.iter_items(dims[0], st)
            dims = dims if its is None else its
        try:
            return nd.reshape(o, [int(I.pyval(x)) for x in dims])
        except (KeyError, TypeError):
            pass
    if name in ("flatten", "ravel", "reshape", "squeeze"):
        if isinstance(o, Arr):
            if name in ("flatten", "ravel") or (name == "reshape" and len(a) == 1 and I.is_const(a[0]) and I.pyval(a[0]) == -1):
                out = []
                for x in o.items:
                    if isinstance(x, Arr):
                        y = arr_method(I, x, "flatten", [], {}, st)
                        out.extend(y.items)
                    else:
                        out.append(x)
                return Arr(out)
            if name == "squeeze" and len(o.items) == 1:
                return o.items[0]
            return mk("app", name, I.term(o, st), *[I.term(x, st) for x in a])
        if name == "reshape" and len(a) == 1 and isinstance(a[0], T) and a[0].op == "shape":
            return o
        if name == "reshape" and len(a) == 1 and isinstance(a[0], Tup) and not a[0].items:
            return o
        if name in ("flatten", "ravel") and isinstance(o, T):
            return Arr([o]) if not (o.op == "app") else mk("app", "flatten", o)
        return mk("reshape", I.term(o, st), name, *[I.term(x, st) for x in a])
    f = JNP.get(name)
    if f is not None:
        return f(I, [o] + list(a), k, st)
    return mk("app", "." + name, I.term(o, st), *[I.term(x, st) for x in a], *[mk("kw", kk, I.term(v, st)) for kk, v in sorted(k.items())])


def seq_find(I, name, o, items, a, s):
    """list/tuple index and count, decided where every comparison is"""
    if len(a) == 1 and not any(isinstance(x, Splat) for x in items):
        hits = []
        for i, x in enumerate(items):
            e = I.compare("Eq", x, a[0], s)
            if e is not TRUE and e is not FALSE:
                break
            if e is TRUE:
                hits.append(i)
                if name == "index":
                    break
        else:
            if name == "index":
                raise AbsRaise("ValueError")
            return const(len(hits))
        if name == "index" and hits:
            return const(hits[0])
    return mk("app", name, I.term(o, s), *[I.term(x, s) for x in a])


def seq_attr(I, o, name, st):
    if name in ("index", "count"):
        return Py(name, lambda I, a, k, s: seq_find(I, name, o, o.items, a, s))
    if o.kind in ("set", "frozenset"):
        return set_attr(I, o, name)
    return None


def set_attr(I, o, name):
    def run(I, a, k, s):
        if any(isinstance(x, Splat) for x in o.items):
            return mk("app", "set." + name, I.term(o, s), *[I.term(x, s) for x in a])

        def member(x, v):
            c = I.contains(x, v, s)
            if c is TRUE or c is FALSE:
                return c is TRUE
            raise GiveUp("set membership")

        if name == "intersection":
            return Tup([x for x in o.items if all(member(x, v) for v in a)], o.kind)
        if name == "difference":
            return Tup([x for x in o.items if not any(member(x, v) for v in a)], o.kind)
        if name == "union":
            out = list(o.items)
            for v in a:
                out += [x for x in I.seq_items(v, s) if not member(x, Tup(out))]
            return Tup(out, o.kind)
        if name == "issubset":
            return const(all(member(x, a[0]) for x in o.items))
        if name == "issuperset":
            return const(all(member(x, o) for x in I.seq_items(a[0], s)))
        if name == "copy":
            return o
        if name == "pop" and (len(o.items) == 1 or (o.items and I.any_pop)):
            return o.items[0]
        raise GiveUp("set." + name)

    return Py("set." + name, run)


def make_deque(I, a, k, st):
    m = k.get("maxlen", a[1] if len(a) > 1 else NONE)
    p = PList(())
    p.deque = True
    if not is_none(m):
        p.maxlen = I.pyval(m)
        if not isinstance(p.maxlen, int):
            raise GiveUp("deque bound")
    return I.alloc(st, p.like(I.seq_items(a[0], st) if a else ()))


def pset_attr(I, o, name):
    def run(I, a, k, s):
        p = I.get(s, o)

        def member(x, its):
            c = I.contains(x, Tup(its), s)
            if c is TRUE or c is FALSE:
                return c is TRUE
            raise GiveUp("set membership")

        if name in ("add", "update"):
            its = list(p.items)
            for x in ([a[0]] if name == "add" else [y for v in a for y in I.seq_items(v, s)]):
                if not member(x, its):
                    its.append(x)
            s.heap[o.i] = PSet(its)
            return NONE
        if name in ("discard", "remove"):
            if not member(a[0], p.items):
                if name == "remove":
                    raise AbsRaise("KeyError", sure=True)
                return NONE
            s.heap[o.i] = PSet([x for x in p.items if not member(a[0], [x])])
            return NONE
        if name == "clear":
            s.heap[o.i] = PSet([])
            return NONE
        if name == "pop" and (len(p.items) == 1 or (p.items and I.any_pop)):
            s.heap[o.i] = PSet(list(p.items)[1:])
            return p.items[0]
        if name == "copy":
            return I.alloc(s, PSet(p.items))
        if name in ("difference_update", "intersection_update"):
            v = I.call(set_attr(I, Tup(p.items, "set"), name[:-7]), a, k, None, s)
            s.heap[o.i] = PSet(v.items)
            return NONE
        v = I.call(set_attr(I, Tup(p.items, "set"), name), a, k, None, s)
        return I.make_set(v.items, s) if isinstance(v, Tup) else v

    return Py("set." + name, run)


def list_attr(I, o, name, st):
    if name == "maxlen" and I.get(st, o).deque:
        m = I.get(st, o).maxlen
        return NONE if m is None else const(m)

    if isinstance(I.get(st, o), PSet):
        return pset_attr(I, o, name)

    def run(I, a, k, s):
        p = I.get(s, o)
        it = list(p.items)
        if name == "append":
            s.heap[o.i] = p.like(it + [a[0]])
            I.event(s, "append", o, a[0])
            return NONE
        if name == "extend":
            s.heap[o.i] = p.like(it + I.seq_items(a[0], s))
            return NONE
        if name == "appendleft":
            it = [a[0]] + it
            s.heap[o.i] = p.like(it[:p.maxlen] if p.maxlen is not None else it)
            return NONE
        if name == "popleft":
            if not it:
                raise AbsRaise("IndexError", sure=True)
            s.heap[o.i] = p.like(it[1:])
            return it[0].value if isinstance(it[0], Splat) else it[0]
        if name == "insert":
            i = I.pyval(a[0])
            it.insert(i, a[1])
            s.heap[o.i] = p.like(it)
            return NONE
        if name == "pop":
            i = I.pyval(a[0]) if a else -1
            if not it:
                return mk("app", "pop_empty")
            v = it.pop(i)
            s.heap[o.i] = p.like(it)
            return v.value if isinstance(v, Splat) else v
        if name == "clear":
            s.heap[o.i] = p.like([])
            return NONE
        if name == "copy":
            return I.alloc(s, p.like(it))
        if name == "reverse":
            s.heap[o.i] = p.like(reversed(it))
            return NONE
        if name == "remove":
            out = [x for x in it if not (I.same(x, a[0]) or (isinstance(x, T) and x is a[0]))]
            s.heap[o.i] = p.like(out)
            return NONE
        if name == "sort":
            s.heap[o.i] = p.like([Splat(mk("sorted", I.term(o, s)), fresh("sort"))])
            return NONE
        if name == "index":
            return seq_find(I, name, o, it, a, s)
        raise GiveUp("list." + name)

    return Py("list." + name, run)


def dict_attr(I, o, name, st):
    if name in ("at", "dtype", "ndim", "reshape", "astype"):
        raise AbsRaise("AttributeError", sure=True)    # array attributes of a mapping

    def run(I, a, k, s):
        p = I.get(s, o)
        if name in ("keys", "values", "items"):
            out = []
            for kk, v in p.d.items():
                kt = const(kk) if isinstance(kk, (str, int, float, bool)) else (Tup([const(x) for x in kk]) if isinstance(kk, tuple) else kk)
                out.append(kt if name == "keys" else v if name == "values" else Tup([kt, v]))
            if p.rest is not None:
                key, val = mk("key", p.rest), mk("val", p.rest)
                out.append(Splat(key if name == "keys" else val if name == "values" else Tup([key, val]), ("dict", p.rest)))
            return Tup(out)
        if name == "get":
            kk = I.dkey(a[0])
            if kk in p.d:
                return p.d[kk]
            if p.rest is not None:
                return mk("app", "dict_get", p.rest, I.term(a[0], s), *[I.term(x, s) for x in a[1:]])
            if kk is None or (isinstance(kk, T)):
                return mk("app", "dict_get", I.term(o, s), I.term(a[0], s))
            return a[1] if len(a) > 1 else NONE
        if name == "update":
            d, rest = dict(p.d), p.rest
            for v in a:
                if isinstance(v, Ref) and isinstance(I.get(s, v), PDict):
                    q = I.get(s, v)
                    d.update(q.d)
                    rest = q.rest if rest is None else (mk("dmerge", rest, q.rest) if q.rest is not None else rest)
                else:
                    t = I.term(v, s)
                    rest = t if rest is None else mk("dmerge", rest, t)
            d.update(k)
            s.heap[o.i] = PDict(d, rest, p.default)
            return NONE
        if name == "copy":
            return I.alloc(s, PDict(p.d, p.rest, p.default))
        if name == "pop":
            kk = I.dkey(a[0])
            d = dict(p.d)
            v = d.pop(kk, None)
            s.heap[o.i] = PDict(d, p.rest, p.default)
            if v is None:
                return a[1] if len(a) > 1 and p.rest is None else mk("app", "dict_pop", I.term(a[0], s))
            return v
        if name == "setdefault":
            kk = I.dkey(a[0])
            if kk in p.d:
                return p.d[kk]
            s.heap[o.i] = PDict({**p.d, kk: a[1]}, p.rest, p.default)
            return a[1]
        if name == "clear":
            s.heap[o.i] = PDict({}, None, p.default)
            return NONE
        raise GiveUp("dict." + name)

    return Py("dict." + name, run)


# ------------------------------------------------------------------ indexing
def getitem(I, o, k, st):
    if isinstance(o, Phi):
        return I.phi(o.c, getitem(I, o.a, k, st), getitem(I, o.b, k, st))
    if isinstance(o, AtRef):
        return AtIdx(o.o, k)
    if isinstance(o, Ref):
        p = I.get(st, o)
        if isinstance(p, PDict):
            kk = I.dkey(k)
            try:
                if kk in p.d:
                    return p.d[kk]
            except TypeError:
                pass
            if p.rest is not None:
                return mk("app", "getitem", p.rest, I.term(k, st))
            if isinstance(kk, T) or kk is None:
                return mk("app", "getitem", I.term(o, st), I.term(k, st))
            if p.default is not None:
                v = I.call(p.default, [], {}, None, st)
                st.heap[o.i] = PDict({**I.get(st, o).d, kk: v}, p.rest, p.default)
                return v
            raise AbsRaise("KeyError", sure=True)
        if isinstance(p, PList):
            return index_seq(I, p.items, k, st, lambda its: I.alloc(st, PList(its)), o)
        if isinstance(p, PInst):
            f = I.getattr_opt(o, "__getitem__", st)
            if f is not None:
                return I.call(f, [k], {}, None, st)
    if isinstance(o, Tup):
        return index_seq(I, o.items, k, st, lambda its: Tup(its), o)
    if isinstance(o, Arr):
        return index_arr(I, o, k, st)
    if isinstance(o, (Cls, Ext)):
        return o
    if isinstance(o, T):
        if o.op == "tuple":
            return index_seq(I, o.args, k, st, lambda its: Tup(its), Tup(o.args))
        if is_none(k):
            return mk("expand", 0, o)
        if isinstance(k, Tup) and k.kind == "slice" and all(is_none(x) for x in k.items):
            return o
        if isinstance(k, Tup) and k.kind == "tuple":
            ks = list(k.items)
            if len(ks) == 1 and isinstance(ks[0], T) and ks[0].op == "obj" and ks[0].args[0] == "...ellipsis":
                return o
            return mk("expandidx", o, *[I.term(x, st) for x in ks])
        if isinstance(k, T) and k.op == "num" and o.op in ("call", "item", "shape", "attr", "split", "app", "splitn"):
            return mk("item", o, int(k.args[0]))
        return mk("idx", o, I.term(k, st))
    if isinstance(o, Py) and "__getitem__" in (o.attrs or {}):
        return I.call(o.attrs["__getitem__"], [k], {}, None, st)
    raise GiveUp(f"subscript of {o}")


class AtIdx(V):
    def __init__(self, o, k):
        self.o, self.k = o, k


def index_seq(I, items, k, st, build, o):
    if isinstance(k, Tup) and k.kind == "slice":
        try:
            sl = slice(*[None if is_none(x) else I.pyval(x) for x in k.items])
            if any(isinstance(x, Splat) for x in items):
                if sl.start is None and sl.stop is None:
                    return build(items)
                raise KeyError
            return build(list(items)[sl])
        except KeyError:
            return mk("idx", I.term(o, st), I.term(k, st))
    try:
        i = I.pyval(k)
        if isinstance(i, bool) or not isinstance(i, int):
            raise KeyError
        first_splat = next((j for j, x in enumerate(items) if isinstance(x, Splat)), None)
        last_splat = next((j for j in range(len(items) - 1, -1, -1) if isinstance(items[j], Splat)), None)
        if first_splat is not None and not (0 <= i < first_splat or (i < 0 and len(items) + i > last_splat)):
            return mk("item", I.term(o, st), i)
        return items[i]
    except KeyError:
        if isinstance(k, T) and items and not any(isinstance(x, Splat) for x in items) and len(items) <= 8:
            return mk("idx", I.term(o, st), k)
        return mk("idx", I.term(o, st), I.term(k, st))
    except IndexError:
        raise AbsRaise("IndexError", sure=not any(isinstance(x, Splat) for x in items))


def basic_index(I, k):
    """python form of an index of ints, slices, None, Ellipsis; None if it is anything else"""
    ks = list(k.items) if isinstance(k, Tup) and k.kind == "tuple" else [k]
    out = []
    for x in ks:
        if is_none(x):
            out.append("new")
        elif isinstance(x, Tup) and x.kind == "slice":
            try:
                out.append(slice(*[None if is_none(y) else I.pyval(y) for y in x.items]))
            except KeyError:
                return None
        elif isinstance(x, T) and x.op == "obj" and x.args[0] == "...ellipsis":
            out.append("...")
        elif isinstance(x, T) and fold_index(x).op == "num":
            out.append(int(fold_index(x).args[0]))
        else:
            return None
    return out


def index_arr(I, o, k, st):
    n = len(o.items)
    if I.scalar_items and n and nd.rect(o):
        ks = basic_index(I, k)
        if ks is not None and any(x == "..." or x == "new" for x in ks) or ks is not None and len(ks) > 1:
            return nd.index(o, ks)
    if isinstance(k, Tup) and k.kind == "slice":
        try:
            return Arr(o.items[slice(*[None if is_none(x) else I.pyval(x) for x in k.items])])
        except KeyError:
            return mk("app", "slice", I.term(o, st), I.term(k, st))
    if isinstance(k, Tup) and k.kind == "tuple":
        ks = list(k.items)
        if ks and isinstance(ks[0], T) and ks[0].op == "obj" and ks[0].args[0] == "...ellipsis":
            return mk("app", "index", I.term(o, st), I.term(k, st))
        r = index_arr(I, o, ks[0], st)
        rest = Tup(ks[1:])
        if not ks[1:]:
            return r
        if isinstance(ks[0], Tup):
            return Arr([getitem(I, x, ks[1] if len(ks) == 2 else rest, st) for x in r.items])
        return getitem(I, r, ks[1] if len(ks) == 2 else rest, st)
    if is_none(k):
        return Arr([o])
    if isinstance(k, Arr):
        if k.items and all(isinstance(x, T) and (x.op == "bool" or kind_of(x) == "b") for x in k.items):
            keep = [fold_bool(x) for x in k.items]
            if None in keep or len(keep) != n:
                return mk("app", "masked", I.term(o, st), I.term(k, st))
            return Arr([x for x, c in zip(o.items, keep) if c])
        return Arr([index_arr(I, o, x, st) for x in k.items])
    k = I.term(k, st)
    k2 = fold_index(k)
    if k2.op == "num":
        i = int(k2.args[0])
        if -n <= i < n:
            return o.items[i]
        return o.items[max(-n, min(n - 1, i))]
    if k.op == "obj" and k.args[0] == "...ellipsis":
        return o
    if n == 0:
        raise GiveUp("index into empty array")
    r = o.items[-1]
    for i in range(n - 2, -1, -1):
        r = I.phi(mk("eq", k, const(i)), o.items[i], r)
    return r


def fold_bool(k):
    """truth value of a boolean expression that does not depend on any input; None if it does"""
    from .terms import Ctx, Need

    c = Ctx()
    c.facts = {}
    c.memo = {}
    try:
        v = c.ev(k)
    except (Need, ZeroDivisionError):
        return None
    return v if isinstance(v, bool) else None


def fold_index(k):
    """exact constant folding of an index expression"""
    from .terms import Ctx, NF, p_is_const, p_cval, Need

    if k.op == "num":
        return k
    c = Ctx()
    c.facts = {}
    c.memo = {}
    try:
        v = c.ev(k)
    except (Need, ZeroDivisionError):
        return k
    if isinstance(v, NF) and p_is_const(v.n) and p_is_const(v.d):
        return const(p_cval(v.n))
    return k


def at_update(I, o, k, v, st, f):
    if isinstance(o, Arr):
        if isinstance(k, Tup) and k.kind == "tuple" and len(k.items) == 1:
            k = k.items[0]
        if isinstance(k, Tup) and k.kind == "tuple" and len(k.items) > 1 and isinstance(k.items[0], T) and fold_index(k.items[0]).op == "num":
            i, n = int(fold_index(k.items[0]).args[0]), len(o.items)
            if not -n <= i < n:
                return o
            row = at_update(I, o.items[i], Tup(list(k.items[1:])), v, st, f)
            if row is None:
                return None
            its = list(o.items)
            its[i] = row
            return Arr(its)
        if isinstance(k, T):
            k2 = fold_index(k)
            if k2.op == "num":
                i = int(k2.args[0])
                n = len(o.items)
                if -n <= i < n:
                    its = list(o.items)
                    its[i] = f(its[i], v)
                    return Arr(its)
                return o
            return Arr([I.phi(mk("eq", k, const(i)), f(x, v), x) for i, x in enumerate(o.items)])
        if isinstance(k, Tup) and k.kind == "slice":
            try:
                idx = range(len(o.items))[slice(*[None if is_none(x) else I.pyval(x) for x in k.items])]
            except KeyError:
                raise GiveUp("symbolic slice update")
            its = list(o.items)
            for j, i in enumerate(idx):
                its[i] = f(its[i], v.items[j] if isinstance(v, Arr) and len(v.items) == len(idx) else v)
            return Arr(its)
    return None


def at_attr(I, o, name, st):
    def run(I, a, k, s):
        v = to_arr(I, a[0], s)
        g = {"set": lambda x, y: y, "add": lambda x, y: I.lift(lambda p, q: I.arith("add", p, q), x, y), "multiply": lambda x, y: I.lift(lambda p, q: I.arith("mul", p, q), x, y),
             "max": lambda x, y: I.lift(lambda p, q: mk("max", p, q), x, y), "min": lambda x, y: I.lift(lambda p, q: mk("min", p, q), x, y)}.get(name)
        if g is not None:
            r = at_update(I, o.o, o.k, v, s, g)
            if r is not None:
                return r
        return mk("app", "at_" + name, I.term(o.o, s), I.term(o.k, s), I.term(v, s))

    return Py("at." + name, run)
