"""Interpreter with mutable, aliasable NumPy arrays (payload PNd); used for code that updates arrays in place."""
from .interp import *
from .interp import Interp
from .terms import *
from . import nd


class PNd:
    """a NumPy array: explicit rectangular content; `view` marks arrays that share storage with another one"""

    def __init__(self, v, view=False):
        self.v, self.view = v, view


class NpInterp(Interp):
    def __init__(self, project, models=None):
        super().__init__(project, models)
        self.scalar_items = True
        self.scalars = True
        self.concrete = True

    def array(self, st, v, view=False):
        return self.alloc(st, PNd(v, view))

    def is_nd(self, v, st):
        return isinstance(v, Ref) and st is not None and isinstance(self.get(st, v), PNd)

    def has_nd(self, v, st):
        return self.is_nd(v, st) or isinstance(v, Phi) and (self.has_nd(v.a, st) or self.has_nd(v.b, st))

    def deref(self, v, st):
        if isinstance(v, Phi):
            return self.phi(v.c, self.deref(v.a, st), self.deref(v.b, st))
        if self.is_nd(v, st):
            return self.get(st, v).v
        return v

    def wrap(self, v, st):
        return self.array(st, v) if isinstance(v, Arr) else v

    # reading
    def term(self, v, st=None):
        return super().term(self.deref(v, st) if st is not None else v, st)

    def lift(self, f, *vals, st=None):
        return super().lift(f, *[self.deref(v, st) for v in vals], st=st)

    def iter_items(self, it, st):
        if self.is_nd(it, st):
            return [self.array(st, x, True) if isinstance(x, Arr) else x for x in self.get(st, it).v.items]
        return super().iter_items(it, st)

    def unpack(self, v, n, st):
        if self.is_nd(v, st):
            return self.iter_items(v, st)
        return super().unpack(v, n, st)

    def binop(self, op, a, b, st):
        m = self.has_nd(a, st) or self.has_nd(b, st)
        r = super().binop(op, self.deref(a, st), self.deref(b, st), st)
        return self.wrap(r, st) if m else r

    def e_UnaryOp(self, n, fr, st):
        v = self.eval(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st))
        m = self.has_nd(v, st)
        r = self.unop(type(n.op).__name__, self.deref(v, st), st)
        return self.wrap(r, st) if m else r

    def compare(self, op, a, b, st):
        if op in ("Is", "IsNot"):
            return super().compare(op, a, b, st)
        m = self.has_nd(a, st) or self.has_nd(b, st)
        r = super().compare(op, self.deref(a, st), self.deref(b, st), st)
        return self.wrap(r, st) if m else r

    def getattr_opt(self, o, name, st):
        if self.has_nd(o, st):
            v = self.deref(o, st)
            if name == "copy":
                return Py(".copy", lambda I, a, k, s: self.array(s, self.deref(o, s)))
            r = self.models.arr_attr(self, v, name, st)
            if isinstance(r, Py):
                if name in ("fill", "sort", "put", "itemset", "resize", "partition", "setfield", "setflags"):
                    raise GiveUp(f"in-place method {name}")

                def meth(I, a, k, s):
                    x = self.models.arr_method(self, self.deref(o, s), name, [self.deref(y, s) for y in a], k, s)
                    return self.array(s, x, name in ("reshape", "ravel", "squeeze", "transpose", "view", "swapaxes")) if isinstance(x, Arr) else x

                return Py(r.name, meth)
            return self.array(st, r, True) if isinstance(r, Arr) else r
        return super().getattr_opt(o, name, st)

    def getitem(self, o, k, st):
        if self.has_nd(o, st):
            r = super().getitem(self.deref(o, st), self.deref(k, st), st)
            return self.array(st, r, True) if isinstance(r, Arr) else r
        return super().getitem(o, k, st)

    def call(self, fv, args, kwargs, fr, st, node=None):
        if isinstance(fv, Ext) and fv.name not in ("builtins.isinstance", "builtins.id", "builtins.type", "builtins.getattr", "builtins.hasattr", "builtins.zip", "builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.map", "builtins.iter"):
            if any(k == "out" for k in kwargs):
                raise GiveUp("out= argument")
            if fv.name == "numpy.copyto":
                raise GiveUp("numpy.copyto")
            m = any(self.has_nd(a, st) for a in list(args) + list(kwargs.values()))
            r = super().call(fv, [self.deref(a, st) for a in args], {k: self.deref(v, st) for k, v in kwargs.items()}, fr, st, node)
            if isinstance(r, Arr) and (m or fv.name.startswith(("numpy.", "jax.numpy."))):
                # asarray and the reshaping functions may share storage with their argument
                return self.array(st, r, fv.name.rsplit(".", 1)[-1] in ("asarray", "ravel", "reshape", "transpose", "squeeze", "atleast_1d", "atleast_2d", "broadcast_to", "expand_dims"))
            return r
        return super().call(fv, args, kwargs, fr, st, node)

    # writing
    def store_nd(self, ref, v, st):
        p = self.get(st, ref)
        if p.view:
            raise GiveUp("write through a view")
        st.heap[ref.i] = PNd(v)

    def setitem(self, o, k, v, st):
        if self.is_nd(o, st):
            base = self.get(st, o).v
            v = self.deref(v, st)
            ks = list(k.items) if isinstance(k, Tup) and k.kind == "tuple" else [k]

            def full(x):
                return isinstance(x, Tup) and x.kind == "slice" and all(y is NONE for y in x.items) or isinstance(x, T) and x.op == "obj" and x.args[0] == "...ellipsis"

            def put(a, ks):
                if not ks:
                    return nd.broadcast_to(v, nd.shape(a)) if isinstance(a, Arr) else self.term(v, st)
                if full(ks[0]):
                    if any(not full(x) for x in ks[1:]):
                        raise GiveUp("partial store")
                    return nd.broadcast_to(v, nd.shape(a)) if isinstance(a, Arr) else v
                try:
                    i = self.pyval(ks[0])
                except KeyError:
                    raise GiveUp("store at a symbolic index")
                if not isinstance(i, int) or isinstance(i, bool) or not isinstance(a, Arr):
                    raise GiveUp("store with this index")
                it = list(a.items)
                if not -len(it) <= i < len(it):
                    raise AbsRaise("IndexError")
                it[i] = put(it[i], ks[1:])
                return Arr(it)

            self.store_nd(o, put(base, ks), st)
            return
        if isinstance(o, (Arr, Phi)) or isinstance(o, T) and not self.is_const(o):
            raise GiveUp(f"store into an array of unknown identity: {o}"[:200])
        return super().setitem(o, k, v, st)

    def x_AugAssign(self, n, fr, st):
        from .interp import _as_load

        load = ast.copy_location(_as_load(n.target), n)
        cur = self.eval(load, fr, st)
        if self.is_nd(cur, st):
            v = self.eval(n.value, fr, st)
            r = Interp.binop(self, type(n.op).__name__, self.deref(cur, st), self.deref(v, st), st)
            self.store_nd(cur, nd.broadcast_to(r, nd.shape(self.get(st, cur).v)) if isinstance(r, Arr) else r, st)
            return st
        if isinstance(cur, Phi) and self.has_nd(cur, st):
            raise GiveUp("in-place update of one of several arrays")
        return super().x_AugAssign(n, fr, st)

    def merge_payload(self, c, p, q, s1=None, s2=None):
        if isinstance(p, PNd) and isinstance(q, PNd):
            def m(a, b):
                if isinstance(a, Arr) and isinstance(b, Arr):
                    if len(a.items) != len(b.items):
                        raise GiveUp("arrays of different shape")
                    return Arr([m(x, y) for x, y in zip(a.items, b.items)])
                return self.phi(c, a, b)

            return PNd(m(p.v, q.v), p.view or q.view)
        return super().merge_payload(c, p, q, s1, s2)
