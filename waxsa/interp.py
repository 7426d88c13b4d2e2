"""Abstract interpreter over the syntax tree: builds gated value graphs.

One pass over a function body computes, for every variable, state slot and
result, a term (terms.py) over the symbolic inputs.  Control-flow joins build
gated selections (``ite``), loops over unknown iterables are summarised once
(carried variables become ``mu`` symbols), repository functions are inlined,
library functions are interpreted by models.py and anything else is an opaque
application.  No repository code is executed.
"""
from __future__ import annotations

import ast
import math
from fractions import Fraction
from math import isqrt

from .project import AnalysisBroken
from .terms import T, mk, const, sym, ite, not_, and_, or_, TRUE, FALSE, NAN, INF, is_num, free_name

NONE = mk("obj", None)


# ------------------------------------------------------------------- values
class V:
    pass


class Tup(V):
    def __init__(self, items, kind="tuple", names=None, cls=None):
        self.items = tuple(items)
        self.kind, self.names, self.cls = kind, names, cls

    def __repr__(self):
        return f"{self.cls or self.kind}{list(self.items)}"


class Arr(V):
    """array with an explicit leading axis"""

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Arr{list(self.items)}"


class Splat(V):
    """unknown run of items inside a sequence (e.g. the shape of an array, appended in a loop)"""

    def __init__(self, value, tag):
        self.value, self.tag = value, tag

    def __repr__(self):
        return f"*<{self.value}:{self.tag}>"


class Phi(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Phi({self.c}, {self.a}, {self.b})"


class Ref(V):
    _n = [0]

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"&{self.i}"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.i == self.i

    def __hash__(self):
        return hash(("ref", self.i))


class Func(V):
    def __init__(self, node, mod, scope, defaults, kwdefaults, qual, cls=None):
        self.node, self.mod, self.scope = node, mod, scope
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls
        self.tags = ()

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound(V):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __repr__(self):
        return f"<bound {self.func} of {self.obj}>"


class Cls(V):
    def __init__(self, node, mod, qual, scope=None):
        self.node, self.mod, self.qual, self.scope = node, mod, qual, scope
        self.bases = None  # evaluated bases of a local class

    def __repr__(self):
        return f"<class {self.qual}>"

    def __eq__(self, o):
        return isinstance(o, Cls) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class NTCls(V):
    """collections.namedtuple(...) made at run time"""

    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def __eq__(self, o):
        return isinstance(o, NTCls) and (o.name, o.fields) == (self.name, self.fields)

    def __hash__(self):
        return hash((self.name, self.fields))


class Ext(V):
    """external (library) object by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))


class CM(V):
    """call of a generator function decorated with contextlib.contextmanager"""

    def __init__(self, func, scope):
        self.func, self.scope = func, scope


class ModV(V):
    def __init__(self, name):
        self.name = name


class Py(V):
    """analyser-side callable: fn(interp, args, kwargs, S) -> value"""

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn, self.attrs = name, fn, attrs or {}

    def __repr__(self):
        return f"<py {self.name}>"


class Sup(V):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


# heap payloads (immutable by convention, replaced on write)
class PList:
    maxlen = None
    deque = False

    def __init__(self, items):
        self.items = tuple(items)

    def like(self, items):
        """a list of the same kind (a bounded deque keeps its newest elements)"""
        out = PList(items)
        if self.deque:
            out.deque, out.maxlen = True, self.maxlen
            if self.maxlen is not None and not any(isinstance(x, Splat) for x in out.items):
                out.items = out.items[max(0, len(out.items) - self.maxlen):]
        return out


class PSet(PList):
    """a mutable set without duplicates (explicit elements only)"""

    def like(self, items):
        return PSet(items)


class PDict:
    def __init__(self, d, rest=None, default=None):
        self.d = dict(d)
        self.rest = rest  # T of unknown remainder
        self.default = default  # factory of missing values


class PInst:
    def __init__(self, cls, attrs, path=None):
        self.cls, self.attrs, self.path = cls, dict(attrs), path


class PScope:
    def __init__(self, vars, parent):
        self.vars, self.parent = dict(vars), parent


class PVar:
    """a Flax variable handle"""

    def __init__(self, key):
        self.key = key


def ground(t, depth=60):
    """rational bounds of a term without variables, None if it has any (or is not a number)"""
    if t.op == "num":
        return (t.args[0], t.args[0])
    if t.op == "bool":
        return (Fraction(int(t.args[0])),) * 2
    if depth == 0 or t.op not in ("add", "sub", "mul", "div", "neg", "sqrt", "abs", "tofloat", "max", "min"):
        return None
    xs = []
    for a in t.args:
        x = ground(a, depth - 1) if isinstance(a, T) else None
        if x is None:
            return None
        xs.append(x)
    (a, b), (c, d) = xs[0], xs[-1]
    if t.op == "add":
        return (a + c, b + d)
    if t.op == "sub":
        return (a - d, b - c)
    if t.op == "neg":
        return (-b, -a)
    if t.op == "tofloat":
        return (a, b)
    if t.op == "max":
        return (max(a, c), max(b, d))
    if t.op == "min":
        return (min(a, c), min(b, d))
    if t.op == "abs":
        return (a, b) if a >= 0 else (-b, -a) if b <= 0 else None
    if t.op == "mul":
        q = [a * c, a * d, b * c, b * d]
        return (min(q), max(q))
    if t.op == "div":
        if c <= 0 <= d:
            return None
        q = [a / c, a / d, b / c, b / d]
        return (min(q), max(q))
    if a < 0:
        return None
    def root(x):
        k = 10 ** 24 * x.denominator
        r = isqrt(x.numerator * x.denominator * 10 ** 48)
        return Fraction(r, k), (Fraction(r, k) if r * r == x.numerator * x.denominator * 10 ** 48 else Fraction(r + 1, k))
    return (root(a)[0], root(b)[1])


class AbsRaise(Exception):
    def __init__(self, exc, sure=False, where=""):
        self.exc, self.sure, self.where = exc, sure, where   # sure: an explicit raise reached unconditionally


class GiveUp(Exception):
    """construct outside the modelled language"""


class S:
    """abstract store at a program point"""

    def __init__(self):
        self.heap = {}
        self.store = {}
        self.events = ()
        self.pc = ()
        self.seq = {}

    def copy(self):
        s = S()
        s.heap, s.store, s.events, s.pc, s.seq = dict(self.heap), dict(self.store), self.events, self.pc, dict(self.seq)
        return s

    def become(self, o):
        self.heap, self.store, self.events, self.pc, self.seq = o.heap, o.store, o.events, o.pc, o.seq


class Frame:
    def __init__(self, scope, mod, qual, func=None, cls=None):
        self.scope, self.mod, self.qual, self.func, self.cls = scope, mod, qual, func, cls
        self.exits = []
        self.base = 0
        self.yields = None
        self.loop = []


_ctr = [0]


def fresh(prefix):
    _ctr[0] += 1
    return f"{prefix}#{_ctr[0]}"


class Interp:
    MAX_UNROLL = 40
    MAX_FILL = 64
    exact_unpack = False   # lengths of all tuples are those of the program: a wrong count is a ValueError
    MAX_DEPTH = 60

    def __init__(self, project, models=None):
        self.p = project
        from . import models as M

        self.models = models or M
        self.gheap = {}
        self.gcache = {}
        self.slot_init = {}      # slot key -> init value
        self.slot_sym = {}       # slot key -> symbolic value of the previous state
        self.slot_override = {}  # slot key suffix -> value
        self.init_mode = False
        self.concrete = False     # control flow is decided by constants: unroll `while True`, match exceptions precisely
        self.params_as_init = True
        self.param_init = {}
        self.raises = []
        self.loops = {}
        self.depth = 0
        self.path = []           # module instance path stack
        self.counters = {}
        self.visited = set()     # (mod.rel, qualname) of analysed functions
        self.callsites = 0
        self.notes = []
        self.opaque_calls = []
        self.assume = {}         # helper for hasattr etc: (name) -> bool
        self.handlers = {}       # overrides: dotted name -> model
        self.truth_memo = {}
        self.running_init = FALSE
        self.stmts = 0
        self.fuel = 400000
        self.class_models = {}      # dotted class -> constructor model (modular reasoning)
        self.has_rng = None         # False: the enclosing Haiku transform has no PRNG key
        self.explicit_vmap = False  # vmap over explicit arrays maps element by element
        self.any_pop = False        # set.pop() takes some element (only where every choice is wrong)
        self.cast_hook = None       # (type name, element) -> element, for casts
        self.exact_casts = False    # casts keep their exact type
        self.memory_order = "C"     # memory layout of the given arrays (matters to ravel(order="K"))
        self.scalars = False        # every plain term is a scalar
        self.scalar_items = False   # entries of explicit arrays are scalars (not sub-arrays)

    # ------------------------------------------------------------- helpers
    def alloc(self, st, payload):
        _ctr[0] += 1
        r = Ref(_ctr[0])
        st.heap[r.i] = payload
        return r

    def get(self, st, ref):
        p = st.heap.get(ref.i)
        if p is None:
            p = self.gheap.get(ref.i)
        if p is None:
            raise GiveUp(f"dangling reference {ref}")
        return p

    def event(self, st, *ev):
        st.events = st.events + ((st.pc, *ev),)

    def seqno(self, st, name):
        n = st.seq.get(name, 0)
        st.seq[name] = n + 1
        return n

    # -- conversion of any value to a term
    def term(self, v, st=None):
        if isinstance(v, T):
            return v
        if v is None:
            return NONE
        if isinstance(v, Tup):
            return mk("tuple", *(self.term(x, st) for x in v.items))
        if isinstance(v, Arr):
            return mk("arr", *(self.term(x, st) for x in v.items))
        if isinstance(v, Splat):
            return mk("splat", self.term(v.value, st))
        if isinstance(v, Phi):
            return ite(v.c, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, Ref) and st is not None:
            try:
                p = self.get(st, v)
            except GiveUp:
                return mk("obj", ("ref", v.i))
            if isinstance(p, PList):
                return mk("tuple", *(self.term(x, st) for x in p.items))
            if isinstance(p, PDict):
                out = []
                for k, x in p.d.items():
                    out.append(mk("tuple", const(k) if isinstance(k, (str, int, float, bool)) else mk("obj", str(k)), self.term(x, st)))
                if p.rest is not None:
                    out.append(mk("splat", self.term(p.rest, st)))
                return mk("dict", *out)
            if isinstance(p, PInst):
                return mk("obj", ("inst", p.cls.qual if isinstance(p.cls, Cls) else str(p.cls), v.i))
            return mk("obj", ("ref", v.i))
        if isinstance(v, Ref):
            return mk("obj", ("ref", v.i))
        if isinstance(v, (Ext, ModV)):
            return mk("obj", ("ext", v.name))
        if isinstance(v, Func):
            return mk("obj", ("func", v.qual, v.node.lineno if hasattr(v.node, "lineno") else 0, v.scope.i if v.scope else 0))
        if isinstance(v, Bound):
            return mk("obj", ("bound", self.term(v.obj, st), self.term(v.func, st)))
        if isinstance(v, Cls):
            return mk("obj", ("cls", v.qual))
        if isinstance(v, Py):
            return mk("obj", ("py", v.name))
        return mk("obj", ("v", type(v).__name__))

    def pyval(self, v):
        """python constant of a constant term, else raise KeyError"""
        if isinstance(v, T):
            if v.op == "num":
                f = v.args[0]
                return int(f) if f.denominator == 1 else float(f)
            if v.op == "bool":
                return v.args[0]
            if v.op == "obj":
                return v.args[0]
            if v.op == "nan":
                return math.nan
            if v.op == "inf":
                return math.inf
        raise KeyError

    def pydata(self, v, st):
        """Python value of constants and of lists, tuples and dictionaries of constants (KeyError otherwise)"""
        if isinstance(v, Tup) and v.kind in ("tuple", "list") and not v.names and v.cls is None:
            r = [self.pydata(x, st) for x in v.items]
            return tuple(r) if v.kind == "tuple" else r
        if isinstance(v, T) and v.op == "tuple":
            return tuple(self.pydata(x, st) for x in v.args)
        if isinstance(v, Ref):
            p = self.get(st, v)
            if isinstance(p, PList):
                return [self.pydata(x, st) for x in p.items]
            if isinstance(p, PDict) and p.rest is None and all(not isinstance(k, T) or k.op in ("num", "obj", "bool") for k in p.d):
                return {(self.pyval(k) if isinstance(k, T) else k): self.pydata(x, st) for k, x in p.d.items()}
            raise KeyError
        return self.pyval(v)

    def is_const(self, v):
        try:
            self.pyval(v)
            return True
        except KeyError:
            return False

    # ------------------------------------------------------------ truthiness
    def truth(self, v, st):
        """term (bool) deciding v in boolean context"""
        if isinstance(v, T):
            if v.op == "bool":
                return v
            if v.op == "num":
                return TRUE if v.args[0] else FALSE
            if v.op == "nan" or v.op == "inf":
                return TRUE
            if v.op == "obj":
                o = v.args[0]
                if isinstance(o, tuple):
                    return TRUE
                return TRUE if o else FALSE
            if v.op in ("not", "and", "or", "lt", "le", "eq", "ne", "isnan", "isfinite", "isinf", "xor"):
                return self.decide(v)
            if v.op == "ite":
                a, b = self.truth(v.args[1], st), self.truth(v.args[2], st)
                return ite(v.args[0], a, b)
            if v.op == "sym" and dict(v.args[1]).get("boolean"):
                return v
            if v.op == "sym" and dict(v.args[1]).get("truthy"):
                return TRUE
            if v.op in ("tuple", "dict"):
                return TRUE if v.args else FALSE
            return mk("truth", v)
        if isinstance(v, Phi):
            return ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Arr):
            return mk("truth", self.term(v))
        if isinstance(v, Ref):
            p = self.get(st, v)
            if isinstance(p, PList):
                if not p.items:
                    return FALSE
                if all(isinstance(x, Splat) for x in p.items):
                    return mk("truth", self.term(v, st))
                return TRUE
            if isinstance(p, PDict):
                if p.d:
                    return TRUE
                return mk("truth", self.term(p.rest, st)) if p.rest is not None else FALSE
            return TRUE
        return TRUE

    def decide(self, t):
        """constant folding of boolean terms"""
        if t.op == "not":
            return not_(self.decide(t.args[0]))
        if t.op in ("and", "or") and all(isinstance(a, T) for a in t.args):
            a, b = self.decide(t.args[0]), self.decide(t.args[1])
            return and_(a, b) if t.op == "and" else or_(a, b)
        if t.op in ("lt", "le", "eq", "ne"):
            a, b = t.args
            if isinstance(a, T) and isinstance(b, T) and a.op == "num" and b.op == "num":
                x, y = a.args[0], b.args[0]
                return const({"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[t.op])
            if self.concrete and isinstance(a, T) and isinstance(b, T):
                x, y = ground(a), ground(b)
                if x is not None and y is not None:
                    if x[0] == x[1] == y[0] == y[1]:
                        return const(t.op in ("le", "eq"))
                    if x[1] < y[0]:
                        return const(t.op != "eq")
                    if y[1] < x[0]:
                        return const(t.op == "ne")
            if a is b and isinstance(a, T) and a.op not in ("sym",) and t.op in ("eq", "ne") and a.op in ("obj", "bool"):
                return const(t.op == "eq")
            if t.op in ("eq", "ne") and isinstance(a, T) and isinstance(b, T) and a.op in ("obj", "num", "bool") and b.op in ("obj", "num", "bool"):
                try:
                    r = self.pyval(a) == self.pyval(b)
                    return const(r if t.op == "eq" else not r)
                except KeyError:
                    pass
        if t.op == "isnan" and t.args[0].op in ("num", "bool"):
            return FALSE
        if t.op == "isnan" and t.args[0].op == "nan":
            return TRUE
        return t

    def known(self, c, st):
        """use the path condition to decide c"""
        c = self.decide(c) if isinstance(c, T) else c
        if c is TRUE or c is FALSE:
            return c
        for q in st.pc:
            if q is c:
                return TRUE
            if q is not_(c):
                return FALSE
        return c

    # ------------------------------------------------------------------ phi
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.i == b.i
        if isinstance(a, Tup) and isinstance(b, Tup):
            return a.kind == b.kind and len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a == b
        if isinstance(a, Func) and isinstance(b, Func):
            return a.node is b.node and a.scope == b.scope
        if isinstance(a, Bound) and isinstance(b, Bound):
            return self.same(a.obj, b.obj) and self.same(a.func, b.func)
        if isinstance(a, Splat) and isinstance(b, Splat):
            return a.tag == b.tag and self.same(a.value, b.value)
        return False

    def phi(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if self.same(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.kind == b.kind and not any(isinstance(x, Splat) for x in a.items + b.items):
            return Tup([self.phi(c, x, y) for x, y in zip(a.items, b.items)], a.kind, a.names, a.cls)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.items) == len(b.items):
            return Arr([self.phi(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Arr) and isinstance(b, T) and b.op in ("num", "nan", "bool"):
            return Arr([self.phi(c, x, b) for x in a.items])
        if isinstance(b, Arr) and isinstance(a, T) and a.op in ("num", "nan", "bool"):
            return Arr([self.phi(c, a, x) for x in b.items])
        return Phi(c, a, b)

    def merge(self, c, s1, s2):
        """state that equals s1 when c holds and s2 otherwise"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = S()
        h1, h2 = s1.heap, s2.heap
        heap = dict(h2)
        for i, p in h1.items():
            q = h2.get(i)
            if q is None or q is p:
                heap[i] = p
            else:
                heap[i] = self.merge_payload(c, p, q, s1, s2)
        s.heap = heap
        s.store = dict(s2.store)
        for k, v in s1.store.items():
            if k in s2.store:
                w = s2.store[k]
                s.store[k] = v if v is w else self.phi(c, v, w)
            else:
                s.store[k] = self.phi(c, v, self.slot_sym.get(k, v)) if k in self.slot_sym else v
        for k, w in s2.store.items():
            if k not in s1.store and k in self.slot_sym:
                s.store[k] = self.phi(c, self.slot_sym[k], w)
        e1, e2 = s1.events, s2.events
        n = 0
        while n < len(e1) and n < len(e2) and e1[n] is e2[n]:
            n += 1
        s.events = e1[:n]
        if e1[n:] or e2[n:]:
            s.events = s.events + ((s1.pc[:-1], "branch", c, e1[n:], e2[n:]),)
        s.seq = {k: max(s1.seq.get(k, 0), s2.seq.get(k, 0)) for k in set(s1.seq) | set(s2.seq)}
        k = 0
        while k < len(s1.pc) and k < len(s2.pc) and s1.pc[k] is s2.pc[k]:
            k += 1
        s.pc = s1.pc[:k]
        return s

    def merge_payload(self, c, p, q, s1=None, s2=None):
        if type(p) is not type(q):
            return p
        if isinstance(p, PScope):
            vs = dict(q.vars)
            for k, v in p.vars.items():
                if k in q.vars:
                    vs[k] = self.phi(c, v, q.vars[k])
                else:
                    vs[k] = v
            return PScope(vs, p.parent)
        if isinstance(p, PInst):
            vs = dict(q.attrs)
            for k, v in p.attrs.items():
                vs[k] = self.phi(c, v, q.attrs[k]) if k in q.attrs else v
            return PInst(p.cls, vs, p.path)
        if isinstance(p, PDict):
            d = dict(q.d)
            for k, v in p.d.items():
                d[k] = self.phi(c, v, q.d[k]) if k in q.d else Phi(c, v, NONE)
            for k in q.d:
                if k not in p.d:
                    d[k] = Phi(c, NONE, q.d[k])
            return PDict(d, p.rest if p.rest is not None else q.rest, p.default)
        if isinstance(p, PList):
            a, b = p.items, q.items
            if len(a) == len(b):
                return PList([self.phi(c, x, y) for x, y in zip(a, b)])
            n = 0
            while n < min(len(a), len(b)) and self.same(a[n], b[n]):
                n += 1
            out = list(a[:n])
            for x in a[n:]:
                out.append(Splat(x, ("if", c)) if not isinstance(x, Splat) else Splat(x.value, ("if", c, x.tag)))
            for x in b[n:]:
                out.append(Splat(x, ("if", not_(c))) if not isinstance(x, Splat) else Splat(x.value, ("if", not_(c), x.tag)))
            return PList(out)
        return p

    # ---------------------------------------------------------------- scopes
    def lookup(self, name, fr, st):
        sc = fr.scope
        while sc is not None:
            p = self.get(st, sc)
            if name in p.vars:
                return p.vars[name]
            sc = p.parent
        return self.global_value(fr.mod, name)

    def global_value(self, mod, name):
        key = (mod.name, name)
        if key in self.gcache:
            return self.gcache[key]
        r = self.p.lookup(mod.name, name)
        if r is None:
            if name == "__name__":
                return const(mod.name)
            from builtins import __dict__ as B

            if name in B:
                v = Ext("builtins." + name)
            else:
                raise GiveUp(f"unresolved name {name} in {mod.name}")
        else:
            v = self.resolved(r)
        self.gcache[key] = v
        return v

    def resolved(self, r):
        if r[0] == "def":
            return self.make_func(r[2], r[1], None, r[2].name)
        if r[0] == "class":
            return Cls(r[2], r[1], f"{r[1].name}.{r[2].name}")
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] in ("assign", "unpack"):
            st = S()
            st.heap = self.gheap
            fr = Frame(None, r[1], r[1].name)
            v = self.eval(r[2], fr, st)
            if r[0] == "unpack":
                v = self.unpack(v, None, st)[r[3]]
            return v
        raise GiveUp(str(r))

    def make_func(self, node, mod, fr, qual, cls=None, st=None):
        if fr is None:
            st = S()
            st.heap = self.gheap
            fr = Frame(None, mod, mod.name)
        a = node.args
        defaults = [self.eval_default(d, fr, st) for d in a.defaults]
        kwd = [None if d is None else self.eval_default(d, fr, st) for d in a.kw_defaults]
        f = Func(node, mod, fr.scope, defaults, kwd, qual, cls)
        if isinstance(node, ast.Lambda):
            return f
        v = f
        for d in reversed(node.decorator_list):
            v = self.decorate(d, v, fr, st)
        return v

    def eval_default(self, d, fr, st):
        try:
            return self.eval(d, fr, st)
        except GiveUp as e:
            return mk("opaque", f"default {ast.dump(d)[:60]}")

    def decorate(self, d, v, fr, st):
        name = self.ext_name(d, fr, st)
        if name in ("flax.linen.compact", "flax.linen.module.compact", "functools.wraps", "contextlib.contextmanager", "haiku.transparent", "flax.linen.nowrap", "abc.abstractmethod", "builtins.staticmethod"):
            if isinstance(v, Func):
                v.tags += (name,)
            return v
        if name in ("builtins.property", "functools.cached_property"):
            v.tags += ("property",)
            return v
        if name == "builtins.classmethod":
            v.tags += ("classmethod",)
            return v
        if isinstance(d, ast.Call):
            cn = self.ext_name(d.func, fr, st)
            if cn in ("functools.wraps", "functools.lru_cache"):
                return v
            if cn in ("functools.partial",):
                inner = self.ext_name(d.args[0], fr, st)
                if inner in ("jax.jit",):
                    return v
        if name in ("jax.jit",):
            return v
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            return v
        if name is not None and (name.startswith("xarray.") or name.startswith("pandas.")):
            return v
        if isinstance(d, ast.Call):
            cn = self.ext_name(d.func, fr, st)
            if cn is not None and (cn.startswith("xarray.") or cn.startswith("pandas.") or cn.startswith("numba.")):
                return v
        if name is not None and name.startswith("numba."):
            return v
        f = self.eval(d, fr, st)
        return self.call(f, [v], {}, fr, st)

    def ext_name(self, node, fr, st):
        """dotted external name of an expression, if it is one"""
        if isinstance(node, ast.Call):
            return None
        try:
            v = self.eval(node, fr, st.copy() if st else S())
        except (GiveUp, AbsRaise):
            return None
        return v.name if isinstance(v, Ext) else None

    def assign_name(self, name, v, fr, st):
        sc = fr.scope
        if sc is None:
            raise GiveUp("module level assignment")
        # nonlocal/global declarations
        decl = getattr(fr, "nonlocals", ())
        if name in decl:
            s2 = self.get(st, sc).parent
            while s2 is not None:
                p = self.get(st, s2)
                if name in p.vars:
                    st.heap[s2.i] = PScope({**p.vars, name: v}, p.parent)
                    return
                s2 = p.parent
        if name in getattr(fr, "globals", ()):
            self.event(st, "global_write", fr.mod.name, name)
            return
        p = self.get(st, sc)
        st.heap[sc.i] = PScope({**p.vars, name: v}, p.parent)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr, st):
        """returns st (normal completion) or None"""
        for i, n in enumerate(stmts):
            try:
                st = self.exec_stmt(n, fr, st)
            except AbsRaise as e:
                fr.exits.append(("raise", e.exc, st, n))
                fr.last_raise = e
                return None
            if st is None:
                return None
        return st

    def exec_stmt(self, n, fr, st):
        self.stmts += 1
        self.fuel -= 1
        if self.fuel < 0:
            raise GiveUp("analysis budget exhausted")
        self.cur = n
        k = type(n).__name__
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise GiveUp(f"statement {k}")
        return m(n, fr, st)

    def x_Expr(self, n, fr, st):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(n.value, fr, st)
        return st

    def x_Pass(self, n, fr, st):
        return st

    def x_Assign(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        for t in n.targets:
            self.assign(t, v, fr, st)
        return st

    def x_AnnAssign(self, n, fr, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr, st), fr, st)
        return st

    def x_AugAssign(self, n, fr, st):
        load = ast.copy_location(_as_load(n.target), n)
        cur = self.eval(load, fr, st)
        v = self.eval(n.value, fr, st)
        if isinstance(cur, Ref) and isinstance(self.get(st, cur), PList) and isinstance(n.op, ast.Add):
            p = self.get(st, cur)
            st.heap[cur.i] = p.like(p.items + tuple(self.seq_items(v, st)))
            self.event(st, "mutate", cur, "+=")
            return st
        if isinstance(cur, T) and not self.is_const(cur):
            self.event(st, "inplace", cur, type(n.op).__name__, n.lineno)
        r = self.binop(type(n.op).__name__, cur, v, st)
        self.assign(n.target, r, fr, st)
        return st

    def x_Return(self, n, fr, st):
        v = NONE if n.value is None else self.eval(n.value, fr, st)
        fr.exits.append(("return", v, st, n))
        return None

    def x_If(self, n, fr, st):
        c = self.known(self.truth(self.eval(n.test, fr, st), st), st)
        if c is TRUE:
            return self.exec_block(n.body, fr, st)
        if c is FALSE:
            return self.exec_block(n.orelse, fr, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (not_(c),)
        r1 = self.exec_block(n.body, fr, s1)
        r2 = self.exec_block(n.orelse, fr, s2)
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        pc = st.pc
        r = self.merge(c, r1, r2)
        if len(r1.pc) <= len(pc) + 1 and len(r2.pc) <= len(pc) + 1:
            r.pc = pc
        return r

    def x_Raise(self, n, fr, st):
        exc = None
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            exc = self.ext_name(e, fr, st) or ast.dump(e)[:40]
        self.raises.append((st.pc, exc, n, fr.qual))
        raise AbsRaise(exc, not st.pc, f"{fr.qual}:{n.lineno}")

    def x_Assert(self, n, fr, st):
        c = self.known(self.truth(self.eval(n.test, fr, st), st), st)
        if c is TRUE:
            return st
        self.raises.append((st.pc + (not_(c),), "AssertionError", n, fr.qual))
        if c is FALSE:
            raise AbsRaise("AssertionError", not st.pc, f"{fr.qual}:{n.lineno}")
        st.pc = st.pc + (c,)
        return st

    def x_FunctionDef(self, n, fr, st):
        f = self.make_func(n, fr.mod, fr, fr.qual + "." + n.name, st=st)
        self.assign_name(n.name, f, fr, st)
        return st

    def x_ClassDef(self, n, fr, st):
        c = Cls(n, fr.mod, fr.qual + "." + n.name, fr.scope)
        if fr.scope is not None:
            c.bases = [self.eval(b, fr, st) for b in n.bases]
        self.assign_name(n.name, c, fr, st)
        return st

    def x_Import(self, n, fr, st):
        for a in n.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            v = ModV(nm) if nm in self.p.modules else Ext(nm)
            self.assign_name(a.asname or nm, v, fr, st)
        return st

    def x_ImportFrom(self, n, fr, st):
        m = fr.mod._resolve_from(n)
        for a in n.names:
            if m in self.p.modules:
                r = self.p.lookup(m, a.name)
                if r is None:
                    raise GiveUp(f"import {a.name} from {m}")
                v = self.global_value(self.p.modules[m], a.name)
            else:
                v = Ext(f"{m}.{a.name}")
            self.assign_name(a.asname or a.name, v, fr, st)
        return st

    def x_Nonlocal(self, n, fr, st):
        fr.nonlocals = tuple(getattr(fr, "nonlocals", ())) + tuple(n.names)
        return st

    def x_Global(self, n, fr, st):
        fr.globals = tuple(getattr(fr, "globals", ())) + tuple(n.names)
        return st

    def x_Delete(self, n, fr, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr, st)
                k = self.eval(t.slice, fr, st)
                if isinstance(o, Ref) and isinstance(self.get(st, o), PDict):
                    p = self.get(st, o)
                    d = dict(p.d)
                    d.pop(self.dkey(k), None)
                    st.heap[o.i] = PDict(d, p.rest, p.default)
                else:
                    self.event(st, "mutate", o, "del")
        return st

    def x_Break(self, n, fr, st):
        fr.loop[-1].append(("break", st))
        return None

    def x_Continue(self, n, fr, st):
        fr.loop[-1].append(("continue", st))
        return None

    def x_With(self, n, fr, st):
        return self.with_items(n, 0, fr, st)

    def with_items(self, n, i, fr, st):
        if i == len(n.items):
            return self.exec_block(n.body, fr, st)
        it = n.items[i]
        m = self.eval(it.context_expr, fr, st)
        if isinstance(m, CM):
            return self.with_generator(n, i, m, fr, st)
        self.event(st, "enter", self.term(m, st), n.lineno)
        v = m
        if isinstance(m, Ref) and isinstance(self.get(st, m), PInst):
            f = self.getattr_opt(m, "__enter__", st)
            if f is not None:
                v = self.call(f, [], {}, fr, st)
        elif isinstance(m, T):
            v = mk("enter", m)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr, st)

        def leave(s, exc):
            if isinstance(m, Ref) and isinstance(self.get(s, m), PInst):
                f = self.getattr_opt(m, "__exit__", s)
                if f is not None:
                    r = self.call(f, [NONE] * 3 if exc is None else [mk("obj", str(exc)), mk("opaque", "exception"), mk("opaque", "traceback")], {}, fr, s)
                    if exc is not None and self.known(self.truth(r, s), s) is not FALSE:
                        raise GiveUp("context manager that may swallow exceptions")
            self.event(s, "exit", self.term(m, s), n.lineno)
            return s

        nex = len(fr.exits)
        r = self.with_items(n, i + 1, fr, st)
        return self.leave_with(fr, nex, r, leave)

    def leave_with(self, fr, nex, r, leave):
        exits = fr.exits[nex:]
        del fr.exits[nex:]
        for kind, v, s, nd in exits:
            if kind != "raise":
                s = leave(s, None)
            elif self.concrete:
                s = leave(s, v)
            if s is not None:
                fr.exits.append((kind, v, s, nd))
        return leave(r, None) if r is not None else None

    def with_generator(self, n, i, m, fr, st):
        """body of the generator up to its yield, the with-block, the rest of the generator"""
        f = m.func
        body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]

        def at(x):
            v = x.value if isinstance(x, (ast.Expr, ast.Assign, ast.AnnAssign)) else None
            return isinstance(v, ast.Yield)

        def split(b):
            """(before, [trailing statement lists with 'always' marks], yield statement)"""
            for k, x in enumerate(b):
                if at(x):
                    return b[:k], [(b[k + 1:], False)], x
                if isinstance(x, ast.Try) and not x.handlers and any(isinstance(y, ast.Yield) for y in ast.walk(x)):
                    pre, post, y = split(x.body)
                    return b[:k] + pre, post + [(x.orelse, False), (x.finalbody, True), (b[k + 1:], False)], y
                if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)):
                    raise GiveUp("context manager with a conditional yield")
            raise GiveUp("context manager without yield")

        pre, post, y = split(body)
        self.visited.add((f.mod.rel, f.qual))
        gf = Frame(m.scope, f.mod, f.qual, f, f.cls)
        gf.base = len(st.pc)
        st = self.exec_block(pre, gf, st)
        if st is None or gf.exits:
            raise GiveUp("context manager that leaves before its yield")
        v = self.eval(y.value.value, gf, st) if y.value.value is not None else NONE
        if n.items[i].optional_vars is not None:
            self.assign(n.items[i].optional_vars, v, fr, st)

        def leave(s, exc):
            for stmts, always in post:
                if exc is None or always:
                    s = self.exec_block(stmts, gf, s)
                    if s is None or gf.exits:
                        raise GiveUp("context manager that raises or returns after its yield")
            return s

        nex = len(fr.exits)
        r = self.with_items(n, i + 1, fr, st)
        return self.leave_with(fr, nex, r, leave)

    def x_Try(self, n, fr, st):
        start = st.copy()
        nex = len(fr.exits)
        r = self.exec_block(n.body, fr, st)
        raised = [e for e in fr.exits[nex:] if e[0] == "raise"]
        fr.exits[nex:] = [e for e in fr.exits[nex:] if e[0] != "raise"]
        if r is not None and n.orelse:
            r = self.exec_block(n.orelse, fr, r)
        returned = len(fr.exits) > nex
        if self.concrete and (r is None or not raised):
            return self.try_precise(n, fr, r, raised)
        hr = None
        exc = sym(fresh("exc"), boolean=True)
        if n.handlers:
            for h in n.handlers[:1]:
                hs = (raised[0][2].copy() if raised and r is None and not returned else start.copy())
                if not (raised and r is None and not returned):
                    hs.pc = hs.pc + (exc,)
                if h.name:
                    self.assign_name(h.name, mk("opaque", "exception"), fr, hs)
                hr = self.exec_block(h.body, fr, hs)
        elif raised:
            if n.finalbody:
                fs = raised[0][2]
                self.exec_block(n.finalbody, fr, fs)
            fr.exits.extend(raised)
        if r is None:
            out = hr
        elif hr is None:
            out = r
        else:
            out = self.merge(exc, hr, r)
            out.pc = start.pc
        if n.finalbody and out is not None:
            out = self.exec_block(n.finalbody, fr, out)
        return out

    def try_precise(self, n, fr, r, raised):
        """the body either definitely completed (r, no raise) or left by raising / returning"""
        out = r
        for kind, v, s, nd in raised:
            for h in n.handlers:
                if h.type is None or self.exc_matches(v, h.type, fr, s):
                    if h.name:
                        self.assign_name(h.name, v if isinstance(v, V) else mk("obj", str(v)), fr, s)
                    hr = self.exec_block(h.body, fr, s)
                    if hr is not None:
                        out = hr if out is None else self.merge(mk("sym", fresh("exc"), (("boolean", True),)), hr, out)
                    break
            else:
                if n.finalbody:
                    s = self.exec_block(n.finalbody, fr, s)
                if s is not None:
                    fr.exits.append((kind, v, s, nd))
        if n.finalbody and out is not None:
            out = self.exec_block(n.finalbody, fr, out)
        return out

    EXC = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "StopIteration": "Exception", "ValueError": "Exception", "TypeError": "Exception",
           "AttributeError": "Exception", "AssertionError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError",
           "ArithmeticError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "OSError": "Exception", "EOFError": "Exception", "OverflowError": "ArithmeticError",
           "UnicodeError": "ValueError", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "Exception": "BaseException"}

    def exc_matches(self, v, typ, fr, st):
        nm = str(v)
        if isinstance(v, T):
            nm = str(v.args[0]) if v.args else nm
        nm = nm.split(".")[-1].split("(")[0]
        names = typ.elts if isinstance(typ, ast.Tuple) else [typ]
        want = {x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?" for x in names}
        if nm not in self.EXC and nm not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit", "BaseException"):
            raise GiveUp(f"exception {nm}")
        while nm:
            if nm in want:
                return True
            nm = self.EXC.get(nm)
        return bool(want & {"BaseException"})

    # -- loops
    def x_For(self, n, fr, st):
        it = self.eval(n.iter, fr, st)
        items = self.iter_items(it, st)
        if items is not None and len(items) <= self.MAX_UNROLL and not any(isinstance(x, Splat) for x in items):
            return self.unrolled(n, items, fr, st)
        if items is not None and any(isinstance(x, Splat) for x in items):
            # mixture of known items and unknown runs
            for x in items:
                if isinstance(x, Splat):
                    st = self.abstract_loop(n, x.value, fr, st, x.tag)
                else:
                    st = self.unrolled(n, [x], fr, st)
                if st is None:
                    return None
            return self.exec_block(n.orelse, fr, st) if n.orelse else st
        el = self.element(it, st)
        return self.abstract_loop(n, el, fr, st, self.term(it, st))

    def unrolled(self, n, items, fr, st):
        breaks = []
        for x in items:
            self.assign(n.target, x, fr, st)
            fr.loop.append([])
            pc = st.pc
            r = self.exec_block(n.body, fr, st)
            ex = fr.loop.pop()
            for kind, s in ex:
                if kind == "continue":
                    r = s if r is None else self.merge_pc(s, r, pc)
                else:
                    breaks.append(s)
            if r is None:
                st = None
                break
            st = r
        if st is not None and n.orelse:
            st = self.exec_block(n.orelse, fr, st)
        for s in reversed(breaks):
            st = s if st is None else self.merge_pc(s, st, ())
        return st

    def merge_pc(self, s, r, pc):
        """merge: s when its own path condition (beyond the common prefix) holds, else r"""
        k = 0
        while k < len(s.pc) and k < len(r.pc) and s.pc[k] is r.pc[k]:
            k += 1
        c = TRUE
        for x in s.pc[k:]:
            c = and_(c, x)
        if c is TRUE:
            return s
        return self.merge(c, s, r)

    def abstract_loop(self, n, el, fr, st, tag):
        lid = fresh("loop")
        # pass 1: find what changes
        s1 = st.copy()
        nex = len(fr.exits)
        if isinstance(n, ast.For):
            self.assign(n.target, el, fr, s1)
        r1, b1 = self.loop_body(n, fr, s1)
        fr.exits[nex:] = []
        outs = [x for x in ([r1] if r1 else []) + b1]
        changed = {}
        for o in outs:
            for i, p in o.heap.items():
                q = st.heap.get(i)
                if q is not None and q is not p:
                    changed[i] = (q, p)
        schanged = set()
        for o in outs:
            for k, v in o.store.items():
                if st.store.get(k) is not v:
                    schanged.add(k)
        # pass 2 from a havocked state
        s2 = st.copy()
        carried = {}
        for i, (q, p) in changed.items():
            s2.heap[i] = self.havoc(q, p, lid, i, carried, isinstance(n, ast.For) and n.target)
        for k in schanged:
            if k in st.store:
                s2.store[k] = self.mirror(st.store[k], f"{lid}.{k}")
                carried[("store", k)] = (st.store[k], s2.store[k])
        s2.pc = st.pc + (mk("inloop", lid),)
        ev0 = len(s2.events)
        if isinstance(n, ast.For):
            self.assign(n.target, el, fr, s2)
        entry = s2.copy()
        r2, b2 = self.loop_body(n, fr, s2)
        loop_exits = fr.exits[nex:]
        body_end = r2
        evs = (body_end.events[ev0:] if body_end is not None else ()) or ()
        info = {"id": lid, "node": n, "elem": el, "iter": tag, "carried": {}, "events": evs, "fn": fr.qual, "pc": st.pc, "breaks": [x.events[ev0:] for x in b2]}
        self.loops[lid] = info
        # after the loop
        out = st.copy()
        for key, (init, mu) in carried.items():
            nxt = self.read_loc(body_end, key) if body_end is not None else mu
            info["carried"][key] = (init, mu, nxt)
        for i, (q, p) in changed.items():
            nxt = body_end.heap.get(i, q) if body_end is not None else q
            out.heap[i] = self.after_loop(q, entry.heap.get(i, q), nxt, lid, tag)
        for k in schanged:
            nv = body_end.store.get(k) if body_end is not None else st.store.get(k)
            out.store[k] = self.final(nv, lid, f"{k}")
        out.events = st.events + ((st.pc, "loop", lid, evs),)
        if body_end is not None:
            out.seq = dict(body_end.seq)
        return out

    def loop_body(self, n, fr, st):
        fr.loop.append([])
        if isinstance(n, ast.While):
            c = self.truth(self.eval(n.test, fr, st), st)
            if c is not TRUE:
                st.pc = st.pc + (c,)
        base = st.pc
        r = self.exec_block(n.body, fr, st)
        ex = fr.loop.pop()
        breaks = []
        for kind, s in ex:
            if kind == "continue":
                r = s if r is None else self.merge_pc(s, r, base)
            else:
                breaks.append(s)
        return r, breaks

    def havoc(self, q, p, lid, i, carried, target):
        tnames = set()
        if target is not None and target is not False:
            for x in ast.walk(target):
                if isinstance(x, ast.Name):
                    tnames.add(x.id)
        if isinstance(q, PScope):
            vs = dict(q.vars)
            for k, v in p.vars.items():
                if k in q.vars and not self.same(q.vars[k], v) and k not in tnames:
                    vs[k] = self.mirror(q.vars[k], f"{lid}.{k}")
                    carried[("scope", i, k)] = (q.vars[k], vs[k])
            return PScope(vs, q.parent)
        if isinstance(q, PInst):
            vs = dict(q.attrs)
            for k, v in p.attrs.items():
                if k in q.attrs and not self.same(q.attrs[k], v):
                    vs[k] = self.mirror(q.attrs[k], f"{lid}.self.{k}")
                    carried[("attr", i, k)] = (q.attrs[k], vs[k])
            return PInst(q.cls, vs, q.path)
        if isinstance(q, PList):
            return PList([Splat(mk("sym", f"{lid}.list{i}", ()), ("mu", lid))])
        if isinstance(q, PDict):
            return PDict({k: (v if k in p.d and self.same(v, p.d[k]) else self.mirror(v, f"{lid}.d{k}")) for k, v in q.d.items()}, q.rest if q.rest is not None else mk("sym", f"{lid}.dict", ()))
        return q

    def after_loop(self, q, mu, nxt, lid, tag):
        if isinstance(q, PScope):
            vs = dict(q.vars)
            for k, v in nxt.vars.items():
                if k not in q.vars:
                    vs[k] = self.final(v, lid, k)
                elif not self.same(v, mu.vars.get(k, v)) or not self.same(mu.vars.get(k), q.vars.get(k)):
                    vs[k] = self.final(v, lid, k)
            return PScope(vs, q.parent)
        if isinstance(q, PInst):
            vs = dict(q.attrs)
            for k, v in nxt.attrs.items():
                if k not in q.attrs or not self.same(v, mu.attrs.get(k, v)) or not self.same(mu.attrs.get(k), q.attrs.get(k)):
                    vs[k] = self.final(v, lid, k)
            return PInst(q.cls, vs, q.path)
        if isinstance(q, PList):
            out = list(q.items)
            for x in nxt.items:
                if isinstance(x, Splat) and isinstance(x.tag, tuple) and x.tag[:2] == ("mu", lid):
                    continue
                if isinstance(x, Splat):
                    out.append(Splat(x.value, ("each", lid, tag, x.tag)))
                else:
                    out.append(Splat(x, ("each", lid, tag)))
            return PList(out)
        if isinstance(q, PDict):
            return PDict({k: v for k, v in nxt.d.items()}, nxt.rest, nxt.default)
        return nxt

    def read_loc(self, st, key):
        if key[0] == "store":
            return st.store.get(key[1])
        p = st.heap.get(key[1]) or self.gheap.get(key[1])
        if key[0] == "scope":
            return p.vars.get(key[2])
        return p.attrs.get(key[2])

    def mirror(self, v, name):
        """symbolic value of the same structure"""
        if isinstance(v, Tup):
            nm = v.names
            return Tup([self.mirror(x, f"{name}.{nm[i] if nm and i < len(nm) else i}") for i, x in enumerate(v.items)], v.kind, v.names, v.cls)
        if isinstance(v, Arr):
            return Arr([self.mirror(x, f"{name}[{i}]") for i, x in enumerate(v.items)])
        if isinstance(v, T):
            if v.op == "obj" and v.args[0] is None:
                return mk("sym", name, ())
            return sym(name, **self.flags_of(v))
        return v if not isinstance(v, (Phi,)) else mk("sym", name, ())

    def flags_of(self, v):
        if v.op == "sym":
            return dict(v.args[1])
        if v.op == "toint":
            return {"int": True}
        if v.op in ("bool", "lt", "le", "eq", "ne", "not", "and", "or", "isnan"):
            return {"boolean": True}
        if v.op == "typed" and v.args[0] == "int":
            return {"int": True}
        if v.op == "num" and v.args[0].denominator == 1 and False:
            return {"int": True}
        return {"nan": True}

    def final(self, v, lid, name):
        if isinstance(v, Tup):
            return Tup([self.final(x, lid, f"{name}.{i}") for i, x in enumerate(v.items)], v.kind, v.names, v.cls)
        if isinstance(v, Arr):
            return Arr([self.final(x, lid, f"{name}[{i}]") for i, x in enumerate(v.items)])
        if isinstance(v, T):
            return mk("final", lid, name, v)
        return v

    def x_While(self, n, fr, st):
        # while the test is decided by constants, execute concretely
        breaks = []
        for _ in range(self.MAX_UNROLL):
            c = self.known(self.truth(self.eval(n.test, fr, st.copy()), st), st)
            if c is FALSE:
                out = self.exec_block(n.orelse, fr, st)
                break
            if c is not TRUE or (isinstance(n.test, ast.Constant) and not self.concrete):
                out = self.abstract_loop(n, None, fr, st, ("while",))
                break
            fr.loop.append([])
            pc = st.pc
            r = self.exec_block(n.body, fr, st)
            for kind, s in fr.loop.pop():
                if kind == "continue":
                    r = s if r is None else self.merge_pc(s, r, pc)
                else:
                    breaks.append(s)
            st = out = r
            if r is None:
                break
        else:
            out = self.abstract_loop(n, None, fr, st, ("while",))
        for s in reversed(breaks):
            out = s if out is None else self.merge_pc(s, out, ())
        return out

    # -- assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack(v, None, st)
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr, st)
                mid = items[i: len(items) - after]
                self.assign(t.elts[i].value, self.alloc(st, PList(mid)), fr, st)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr, st)
            else:
                items = self.unpack(v, len(t.elts), st)
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            k = self.eval_index(t.slice, fr, st)
            self.setitem(o, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)
        else:
            raise GiveUp("assignment target")

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref):
            p = self.get(st, o)
            if isinstance(p, PVar):
                if name == "value":
                    self.write_slot(p.key, v, st)
                    return
            if isinstance(p, PInst):
                st.heap[o.i] = PInst(p.cls, {**p.attrs, name: v}, p.path)
                return
        if isinstance(o, Phi):
            for br, c in ((o.a, o.c), (o.b, not_(o.c))):
                if isinstance(br, Ref):
                    old = self.getattr_opt(br, name, st)
                    self.setattr(br, name, self.phi(c, v, old if old is not None else NONE), st)
            return
        if isinstance(o, Py) and getattr(o, "settable", False):
            o.attrs[name] = v
            return
        if isinstance(o, Cls) and self.concrete:
            st.heap[self.class_cell(o).i] = PDict({**self.get(st, self.class_cell(o)).d, name: v})
            return
        self.event(st, "setattr", self.term(o, st), name, self.term(v, st))

    def setitem(self, o, k, v, st):
        if isinstance(o, Ref):
            p = self.get(st, o)
            if isinstance(p, PDict):
                key = self.dkey(k)
                if self.models.setitem_hook(self, p, o, key, v, st):
                    return
                if key is None:
                    st.heap[o.i] = PDict(p.d, mk("upd", p.rest if p.rest is not None else NONE, self.term(k, st), self.term(v, st)), p.default)
                else:
                    st.heap[o.i] = PDict({**p.d, key: v}, p.rest, p.default)
                self.event(st, "setitem", o, k, v)
                return
            if isinstance(p, PList):
                try:
                    i = self.pyval(k)
                    it = list(p.items)
                    it[i] = v
                    st.heap[o.i] = PList(it)
                    return
                except (KeyError, IndexError, TypeError):
                    st.heap[o.i] = PList([Splat(mk("opaque", "list store"), fresh("ls"))])
                    return
            if isinstance(p, PInst):
                f = self.getattr_opt(o, "__setitem__", st)
                if f is not None:
                    self.call(f, [k, v], {}, None, st)
                    return
        self.event(st, "setitem", o if isinstance(o, Ref) else self.term(o, st), self.term(k, st), self.term(v, st))

    def dkey(self, k):
        try:
            v = self.pyval(k)
            hash(v)
            return v
        except (KeyError, TypeError):
            pass
        if isinstance(k, Tup):
            out = []
            for x in k.items:
                y = self.dkey(x)
                if y is None:
                    return None
                out.append(y)
            return tuple(out)
        if isinstance(k, Ext):
            return Ext(self.models.canon_name(k.name))
        if isinstance(k, Cls):
            return k
        if isinstance(k, T):
            return k
        return None

    def unpack(self, v, n, st):
        if isinstance(v, Tup) and not any(isinstance(x, Splat) for x in v.items):
            if n is not None and len(v.items) != n:
                if self.exact_unpack:
                    raise AbsRaise("ValueError", sure=True)
                raise GiveUp(f"unpack {len(v.items)} into {n}")
            return list(v.items)
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, Ref):
            p = self.get(st, v)
            if isinstance(p, PList) and not any(isinstance(x, Splat) for x in p.items):
                return list(p.items)
            if isinstance(p, PDict):
                return [const(k) if isinstance(k, (str, int, float, bool)) else k for k in p.d]
            if isinstance(p, PInst):
                f = self.getattr_opt(v, "__iter__", st)
                if f is not None:
                    return self.unpack(self.call(f, [], {}, None, st), n, st)
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
            return [self.phi(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, T):
            if v.op == "tuple":
                return list(v.args)
            if v.op == "ite" and all(isinstance(x, T) and x.op == "tuple" for x in v.args[1:]):
                return [ite(v.args[0], x, y) for x, y in zip(v.args[1].args, v.args[2].args)]
            if n is not None:
                return [mk("item", v, i) for i in range(n)]
        if n is not None and isinstance(v, (Tup,)):
            t = self.term(v, st)
            return [mk("item", t, i) for i in range(n)]
        raise GiveUp(f"cannot unpack {v}")

    def iter_items(self, it, st):
        """list of items of a finite iterable, or None"""
        if isinstance(it, Tup):
            return list(it.items)
        if isinstance(it, Arr):
            return list(it.items)
        if isinstance(it, Ref):
            p = self.get(st, it)
            if isinstance(p, PList):
                return list(p.items)
            if isinstance(p, PDict):
                r = [const(k) if isinstance(k, (str, int, float, bool)) else k for k in p.d]
                if p.rest is not None:
                    r.append(Splat(mk("key", self.term(p.rest, st)), ("keys",)))
                return r
            if isinstance(p, PInst):
                f = self.getattr_opt(it, "__iter__", st)
                if f is not None:
                    return self.iter_items(self.call(f, [], {}, None, st), st)
        if isinstance(it, T) and it.op == "tuple":
            return list(it.args)
        if isinstance(it, T) and it.op == "obj" and isinstance(it.args[0], str):
            return [const(ch) for ch in it.args[0]]
        return None

    def element(self, it, st):
        if isinstance(it, T):
            if it == NONE:
                raise AbsRaise("TypeError", sure=True)
            return mk("elem", it)
        return mk("elem", self.term(it, st))

    def seq_items(self, v, st):
        r = self.iter_items(v, st)
        if r is None:
            return [Splat(self.element(v, st), ("elems", self.term(v, st)))]
        return r

    # ----------------------------------------------------------- expressions
    def eval(self, n, fr, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise GiveUp("analysis budget exhausted")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise GiveUp(f"expression {type(n).__name__}")
        return m(n, fr, st)

    def e_Constant(self, n, fr, st):
        if n.value is Ellipsis:
            return mk("obj", "...ellipsis")
        return const(n.value)

    def e_Name(self, n, fr, st):
        return self.lookup(n.id, fr, st)

    def e_NamedExpr(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        self.assign(n.target, v, fr, st)
        return v

    def e_Tuple(self, n, fr, st):
        return Tup(self.eval_items(n.elts, fr, st))

    def e_List(self, n, fr, st):
        return self.alloc(st, PList(self.eval_items(n.elts, fr, st)))

    def e_Set(self, n, fr, st):
        return self.make_set(self.eval_items(n.elts, fr, st), st)

    def eval_items(self, elts, fr, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.seq_items(self.eval(e.value, fr, st), st))
            else:
                out.append(self.eval(e, fr, st))
        return out

    def e_Dict(self, n, fr, st):
        d, rest = {}, None
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, fr, st)
                if isinstance(o, Ref) and isinstance(self.get(st, o), PDict):
                    p = self.get(st, o)
                    d.update(p.d)
                    rest = p.rest if p.rest is not None else rest
                else:
                    if getattr(self, "plain_values", False) and isinstance(o, T) and (o.op == "sym" or o.op == "app" and free_name(o.args[0]) or o.op == "num"):
                        raise AbsRaise("TypeError", sure=True)    # (what the specification handed in are arrays, no mappings)
                    rest = self.term(o, st) if rest is None else mk("dmerge", rest, self.term(o, st))
                continue
            kk = self.dkey(self.eval(k, fr, st))
            vv = self.eval(v, fr, st)
            if kk is None:
                rest = mk("opaque", "dict key")
            else:
                d[kk] = vv
        return self.alloc(st, PDict(d, rest))

    def e_JoinedStr(self, n, fr, st):
        parts, out = [], []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
                if out is not None:
                    out.append(str(v.value))
                continue
            x = self.eval(v.value, fr, st)
            parts.append(x)
            spec = self.e_JoinedStr(v.format_spec, fr, st) if v.format_spec is not None else const("")
            if out is None:
                continue
            try:
                g = ground(x) if self.concrete and isinstance(x, T) and x.op not in ("num", "bool") else None
                y = self.pydata(x, st) if g is None else float(g[0])
                y = {115: str, 114: repr, 97: ascii}.get(v.conversion, lambda z: z)(y)
                out.append(format(y, self.pyval(spec)))
            except (KeyError, ValueError, TypeError):
                out = None
        return const("".join(out)) if out is not None else mk("app", "fstring", *[self.term(p, st) for p in parts])

    def e_FormattedValue(self, n, fr, st):
        return self.eval(n.value, fr, st)

    def e_Lambda(self, n, fr, st):
        return self.make_func(n, fr.mod, fr, fr.qual + ".<lambda>", st=st)

    def e_IfExp(self, n, fr, st):
        c = self.known(self.truth(self.eval(n.test, fr, st), st), st)
        if c is TRUE:
            return self.eval(n.body, fr, st)
        if c is FALSE:
            return self.eval(n.orelse, fr, st)
        return self.fork(c, lambda s: self.eval(n.body, fr, s), lambda s: self.eval(n.orelse, fr, s), st)

    def fork(self, c, f, g, st):
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (not_(c),)
        pc = st.pc
        d1 = d2 = False
        try:
            a = f(s1)
        except AbsRaise:
            d1 = True
        try:
            b = g(s2)
        except AbsRaise:
            d2 = True
        if d1 and d2:
            raise AbsRaise("both")
        if d1:
            st.become(s2)
            return b
        if d2:
            st.become(s1)
            return a
        m = self.merge(c, s1, s2)
        m.pc = pc
        st.become(m)
        return self.phi(c, a, b)

    def e_BoolOp(self, n, fr, st):
        def go(vals, s):
            v = self.eval(vals[0], fr, s)
            if len(vals) == 1:
                return v
            c = self.known(self.truth(v, s), s)
            if isinstance(n.op, ast.And):
                if c is TRUE:
                    return go(vals[1:], s)
                if c is FALSE:
                    return v
                r = self.fork(c, lambda q: go(vals[1:], q), lambda q: FALSE if c is v else v, s)
                return r
            if c is TRUE:
                return v
            if c is FALSE:
                return go(vals[1:], s)
            return self.fork(c, lambda q: TRUE if c is v else v, lambda q: go(vals[1:], q), s)

        return go(n.values, st)

    def e_UnaryOp(self, n, fr, st):
        v = self.eval(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            c = self.truth(v, st)
            return not_(c)
        return self.unop(type(n.op).__name__, v, st)

    def unop(self, op, v, st):
        if op == "USub":
            return self.lift(lambda x: const(-x.args[0]) if x.op == "num" else mk("neg", x), v)
        if op == "UAdd":
            return v
        if op == "Invert":
            return self.lift(lambda x: not_(x), v)
        raise GiveUp(op)

    def e_BinOp(self, n, fr, st):
        a = self.eval(n.left, fr, st)
        b = self.eval(n.right, fr, st)
        return self.binop(type(n.op).__name__, a, b, st)

    OPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "shl", "RShift": "shr"}

    def binop(self, op, a, b, st):
        if op == "MatMult":
            return self.models.matmul(self, a, b, st)
        if isinstance(a, Phi):
            return self.phi(a.c, self.binop(op, a.a, b, st), self.binop(op, a.b, b, st))
        if isinstance(b, Phi):
            return self.phi(b.c, self.binop(op, a, b.a, st), self.binop(op, a, b.b, st))
        if self.concrete and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            fz = [self.get(st, v) if isinstance(v, Ref) else None for v in (a, b)]
            if all(isinstance(v, PSet) or isinstance(w, Tup) and w.kind == "set" for v, w in zip(fz, (a, b))):
                ta, tb = [Tup(v.items, "set") if v is not None else w for v, w in zip(fz, (a, b))]
                g = lambda nm, x, y: list(self.seq_items(self.call(self.models.set_attr(self, x, nm), [y], {}, None, st), st))
                if op == "BitXor":
                    return self.make_set(g("difference", ta, tb) + g("difference", tb, ta), st)
                return self.make_set(g({"BitOr": "union", "BitAnd": "intersection", "Sub": "difference"}[op], ta, tb), st)
        seq = lambda v: v.items if isinstance(v, Tup) else (self.get(st, v).items if isinstance(v, Ref) and isinstance(self.get(st, v), PList) else None)
        sa, sb = seq(a), seq(b)
        if op == "Add" and sa is not None:
            if sb is None and isinstance(b, T) and b.op not in ("num",):
                sb = (Splat(mk("elem", b), ("elems", b)),)
            if sb is not None:
                items = sa + tuple(sb)
                return Tup(items, "tuple") if isinstance(a, Tup) else self.alloc(st, PList(items))
        if op == "Add" and sb is not None and isinstance(a, T) and a.op not in ("num",):
            items = (Splat(mk("elem", a), ("elems", a)),) + tuple(sb)
            return Tup(items, "tuple") if isinstance(b, Tup) else self.alloc(st, PList(items))
        if op == "Mult" and sa is not None and isinstance(b, T):
            if b.op == "num":
                items = sa * int(b.args[0])
                return Tup(items) if isinstance(a, Tup) else self.alloc(st, PList(items))
            items = [Splat(x, ("times", b)) for x in sa]
            return Tup(items) if isinstance(a, Tup) else self.alloc(st, PList(items))
        if op == "Mult" and sb is not None and isinstance(a, T):
            return self.binop(op, b, a, st)
        if op == "Mod" and isinstance(a, T) and a.op == "obj" and isinstance(a.args[0], str):
            return mk("app", "fstring", a, self.term(b, st))
        if isinstance(a, T) and isinstance(b, T) and a.op == "obj" and b.op == "obj" and isinstance(a.args[0], str) and isinstance(b.args[0], str) and op == "Add":
            return const(a.args[0] + b.args[0])
        if op == "BitOr" and isinstance(a, (Cls, Ext)) or op == "BitOr" and isinstance(b, (Cls, Ext)):
            return Tup([a, b], "union")
        if isinstance(a, Ref) and isinstance(self.get(st, a), PInst):
            f = self.getattr_opt(a, {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(op, "__none__"), st)
            if f is not None:
                return self.call(f, [b], {}, None, st)
        name = self.OPS[op]
        return self.lift(lambda x, y: self.arith(name, x, y), a, b, st=st)

    def arith(self, name, x, y):
        if self.exact_casts and (x.op == "cast" or y.op == "cast"):
            p, q = self.models.typed_num(x), self.models.typed_num(y)
            if p is not None and q is not None:
                ty = self.models.promote_int(p[1], q[1])
                r = self.models.typed_num(self.arith(name, const(p[0]), const(q[0])))
                if r is not None:
                    return mk("cast", ty, const(self.models.wrap_int(ty, r[0])))
        if x.op == "num" and y.op == "num":
            p, q = x.args[0], y.args[0]
            try:
                if name == "add":
                    return const(p + q)
                if name == "sub":
                    return const(p - q)
                if name == "mul":
                    return const(p * q)
                if name == "div" and q:
                    return const(p / q)
                if name == "mod" and q:
                    return const(p % q)
                if name == "floordiv" and q:
                    return const(math.floor(p / q))
                if name == "fmod" and q:
                    return const(p - q * int(p / q))
                if name == "pow" and q.denominator == 1 and abs(q) < 400:
                    return const(p ** int(q))
                if name == "shl" and p.denominator == 1:
                    return const(int(p) << int(q))
                if name == "shr" and p.denominator == 1:
                    return const(int(p) >> int(q))
                if name == "and" and p.denominator == 1:
                    return const(int(p) & int(q))
                if name == "or" and p.denominator == 1:
                    return const(int(p) | int(q))
            except (OverflowError, ZeroDivisionError):
                pass
        if name == "mul" and y.op == "obj" and isinstance(y.args[0], str) and x.op == "num":
            x, y = y, x
        if x.op == "obj" and isinstance(x.args[0], str):
            if name == "add" and y.op == "obj" and isinstance(y.args[0], str):
                return const(x.args[0] + y.args[0])
            if name == "mul" and y.op == "num" and y.args[0].denominator == 1 and y.args[0] < 1000:
                return const(x.args[0] * int(y.args[0]))
        if x.op == "nan" and name not in ("and", "or", "pow") and y.op in ("num", "nan"):
            return NAN
        if y.op == "nan" and name not in ("and", "or", "pow") and x.op in ("num", "nan"):
            return NAN
        boolish = lambda t: t.op in ("bool", "not", "and", "or", "lt", "le", "eq", "ne", "isnan", "isfinite", "isinf", "xor", "truth") or (t.op == "sym" and dict(t.args[1]).get("boolean")) or (t.op == "ite" and boolish(t.args[1]) and boolish(t.args[2]))
        if name in ("and", "or"):
            if boolish(x) or boolish(y):
                return and_(x, y) if name == "and" else or_(x, y)
            return mk("bit" + name, x, y)
        if name == "xor":
            return mk("xor" if boolish(x) or boolish(y) else "bitxor", x, y)
        if name == "sub" and x.op == "bool" and y.op == "bool":
            pass
        return mk(name, x, y)

    def lift(self, f, *vals, st=None):
        """apply a pointwise operation, broadcasting explicit leading axes"""
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                a = list(vals)
                b = list(vals)
                a[i], b[i] = v.a, v.b
                return self.phi(v.c, self.lift(f, *a, st=st), self.lift(f, *b, st=st))
        n = max((len(v.items) for v in vals if isinstance(v, Arr)), default=None)
        if n is None:
            return f(*[self.term(v, st) for v in vals])
        if self.scalar_items:
            from . import nd

            if all(nd.rect(v) for v in vals):
                sh = nd.broadcast_shapes(*[nd.shape(v) for v in vals if isinstance(v, Arr)])
                cols = [nd.flat(nd.broadcast_to(v, sh)) for v in vals]
                return nd.build(sh, [self.lift(f, *r, st=st) if any(isinstance(q, Phi) for q in r) else f(*[self.term(q, st) for q in r]) for r in zip(*cols)])
        out = []
        for i in range(n):
            row = []
            for v in vals:
                if isinstance(v, Arr):
                    if len(v.items) == n:
                        row.append(v.items[i])
                    elif len(v.items) == 1:
                        row.append(v.items[0])
                    else:
                        raise GiveUp("incompatible explicit shapes")
                else:
                    row.append(v)
            out.append(self.lift(f, *row, st=st))
        return Arr(out)

    def e_Compare(self, n, fr, st):
        left = self.eval(n.left, fr, st)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, fr, st)
            r = self.compare(type(op).__name__, left, right, st)
            if res is None:
                res = r
            else:
                res = self.lift(lambda x, y: and_(x, y), res, r, st=st)
            left = right
        return res

    def compare(self, op, a, b, st):
        if isinstance(a, Phi) and op not in ("In", "NotIn"):
            return self.phi(a.c, self.compare(op, a.a, b, st), self.compare(op, a.b, b, st))
        if isinstance(b, Phi):
            return self.phi(b.c, self.compare(op, a, b.a, st), self.compare(op, a, b.b, st))
        if op in ("Is", "IsNot"):
            r = self.identical(a, b, st)
            return r if op == "Is" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return r if op == "In" else not_(r)
        if op in ("Eq", "NotEq"):
            if isinstance(a, (Tup, Ext, Cls, Func, NTCls)) or isinstance(b, (Tup, Ext, Cls, Func, NTCls)):
                if self.same(a, b) or (isinstance(a, Ext) and isinstance(b, Ext) and a.name.removeprefix("dtype:") == b.name.removeprefix("dtype:")):
                    r = TRUE
                elif isinstance(a, Tup) and isinstance(b, Tup) and not any(isinstance(x, Splat) for x in a.items + b.items):
                    if len(a.items) != len(b.items):
                        r = FALSE
                    else:
                        r = TRUE
                        for x, y in zip(a.items, b.items):
                            r = and_(r, self.compare("Eq", x, y, st))
                elif isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
                    r = FALSE
                else:
                    r = self.decide(mk("eq", self.term(a, st), self.term(b, st)))
                return r if op == "Eq" else not_(r)
        f = {
            "Lt": lambda x, y: self.decide(mk("lt", x, y)),
            "LtE": lambda x, y: self.decide(mk("le", x, y)),
            "Gt": lambda x, y: self.decide(mk("lt", y, x)),
            "GtE": lambda x, y: self.decide(mk("le", y, x)),
            "Eq": lambda x, y: self.decide(mk("eq", x, y)),
            "NotEq": lambda x, y: self.decide(mk("ne", x, y)),
        }[op]
        if self.exact_casts:
            g, plain = f, lambda x: x if (q := self.models.typed_num(x)) is None else const(q[0])
            f = lambda x, y: g(plain(x), plain(y))
        return self.lift(f, a, b, st=st)

    def identical(self, a, b, st):
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return TRUE
            if a.op in ("obj", "bool", "num", "nan") and b.op in ("obj", "bool", "num", "nan"):
                return FALSE
            other = b if (a.op == "obj" and a.args[0] is None) else a if (b.op == "obj" and b.args[0] is None) else None
            if other is not None:
                if other.op == "ite":
                    return ite(other.args[0], self.identical(other.args[1], NONE, st), self.identical(other.args[2], NONE, st))
                if other.op == "sym" and dict(other.args[1]).get("maybe_none"):
                    return sym("isnone(" + str(other.args[0]) + ")", boolean=True)
                return FALSE
            return mk("is", a, b)
        if self.same(a, b):
            return TRUE
        return FALSE

    def contains(self, a, b, st):
        if isinstance(b, T) and b.op == "obj" and isinstance(b.args[0], (str, bytes)):
            if isinstance(a, T) and a.op == "obj" and isinstance(a.args[0], type(b.args[0])):
                return const(a.args[0] in b.args[0])   # substring
            return mk("in", self.term(a, st), b)
        items = self.iter_items(b, st)
        if items is None:
            return mk("in", self.term(a, st), self.term(b, st))
        r = FALSE
        for x in items:
            if isinstance(x, Splat):
                r = or_(r, mk("in", self.term(a, st), mk("splat", self.term(x.value, st))))
            else:
                r = or_(r, self.compare("Eq", a, x, st))
        return r

    def e_Attribute(self, n, fr, st):
        o = self.eval(n.value, fr, st)
        return self.getattr(o, n.attr, st)

    def getattr(self, o, name, st):
        v = self.getattr_opt(o, name, st)
        if v is None:
            if name == "__name__" and (isinstance(o, Tup) or isinstance(o, Ref) and isinstance(self.get(st, o), PInst)):
                raise AbsRaise("AttributeError", sure=True)
            raise GiveUp(f"attribute {name} of {o}")
        return v

    def mro(self, cls):
        """[(Cls or Ext)] linearised (depth first, good enough here)"""
        out = [cls]
        if isinstance(cls, Cls):
            fr = Frame(cls.scope, cls.mod, cls.qual)
            for b in cls.bases if cls.bases is not None else cls.node.bases:
                try:
                    v = b if cls.bases is not None else self.eval(b, fr, S())
                except (GiveUp, AbsRaise):
                    continue
                if isinstance(v, Cls):
                    out.extend(x for x in self.mro(v) if x not in out)
                elif isinstance(v, Ext):
                    out.append(v)
        return out

    def class_member(self, cls, name, st):
        for c in self.mro(cls):
            if isinstance(c, Cls):
                r = self.own_member(c, name, st)
                if r is not None:
                    return r, c
        return None, None

    def class_cell(self, c):
        """attributes assigned to a class at run time"""
        key = (id(c.node), "<assigned>")
        if key not in self.gcache:
            s = S()
            s.heap = self.gheap
            self.gcache[key] = self.alloc(s, PDict({}))
        return self.gcache[key]

    def own_member(self, c, name, st):
        if st is not None and (id(c.node), "<assigned>") in self.gcache:
            d = self.get(st, self.class_cell(c)).d
            if name in d:
                return d[name]
        key = (id(c.node), name)
        if key in self.gcache:
            return self.gcache[key]
        found = None
        for x in c.node.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name:
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in x.decorator_list):
                    continue
                found = ("f", x)
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                found = ("v", x.value)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name and x.value is not None:
                found = ("v", x.value)
        if found is None:
            return None
        fr = Frame(c.scope, c.mod, c.qual)
        s = S()
        s.heap = self.gheap
        if c.scope is not None and st is not None:
            s = st
        if found[0] == "f":
            v = self.make_func(found[1], c.mod, fr, c.qual.split(".")[-1] + "." + name, c, s)
            if isinstance(v, Func):
                v.cls = c
        else:
            v = self.eval(found[1], fr, s)
            if isinstance(v, Ext) and v.name.startswith("dataclasses.field"):
                v = None
        self.gcache[key] = v
        return v

    def getattr_opt(self, o, name, st):
        if isinstance(o, Phi):
            a, b = self.getattr_opt(o.a, name, st), self.getattr_opt(o.b, name, st)
            if a is None or b is None:
                return a if b is None else b
            return self.phi(o.c, a, b)
        if isinstance(o, Ext):
            r = self.models.ext_attr(self, o, name)
            return r
        if isinstance(o, ModV):
            r = self.p.lookup(o.name, name)
            if r is not None:
                return self.global_value(self.p.modules[o.name], name)
            if o.name + "." + name in self.p.modules:
                return ModV(o.name + "." + name)
            if name == "__name__":
                return const(o.name)
            return None
        if isinstance(o, Tup):
            if o.names and name in o.names:
                return o.items[o.names.index(name)]
            if name == "_asdict" and o.names:
                return Py("_asdict", lambda I, a, k, s: I.alloc(s, PDict(dict(zip(o.names, o.items)))))
            if name == "_replace" and o.names:
                return Py("_replace", lambda I, a, k, s: Tup([k.get(nm, v) for nm, v in zip(o.names, o.items)], o.kind, o.names, o.cls))
            if name == "_fields" and o.names:
                return Tup([const(x) for x in o.names])
            if isinstance(o.cls, Cls):
                m, c = self.class_member(o.cls, name, st)
                if m is not None:
                    return self.bind_member(o, m, c, st)
            return self.models.seq_attr(self, o, name, st)
        if isinstance(o, Ref):
            p = self.get(st, o)
            if isinstance(p, PInst):
                if name in p.attrs:
                    return p.attrs[name]
                if name == "__dict__":
                    return self.alloc(st, PDict(p.attrs))
                if name == "__class__":
                    return p.cls
                m, c = self.class_member(p.cls, name, st)
                if m is not None:
                    return self.bind_member(o, m, c, st)
                return self.models.inst_attr(self, o, p, name, st)
            if isinstance(p, PVar):
                if name == "value":
                    return self.read_slot(p.key, st)
                return None
            if isinstance(p, PList):
                return self.models.list_attr(self, o, name, st)
            if isinstance(p, PDict):
                return self.models.dict_attr(self, o, name, st)
            return None
        if isinstance(o, Cls):
            if name == "__name__":
                return const(o.node.name)
            m, c = self.class_member(o, name, st)
            if m is not None:
                if isinstance(m, Func) and "classmethod" in m.tags:
                    return Bound(o, m)
                return m
            nt = self.namedtuple_fields(o)
            if nt and name == "_fields":
                return Tup([const(x) for x in nt[0]])
            r = self.models.class_attr(self, o, name, st)
            return r
        if isinstance(o, NTCls):
            if name == "_fields":
                return Tup([const(x) for x in o.fields])
            if name == "_make":
                return Py("_make", lambda I, a, k, s: I.make_nt(o.fields, list(I.seq_items(a[0], s)), {}, o, {}))
            if name == "__name__":
                return const(o.name)
            return None
        if isinstance(o, Sup):
            mro = self.mro(self.get(st, o.obj).cls if isinstance(o.obj, Ref) else o.cls)
            try:
                i = mro.index(o.cls)
            except ValueError:
                i = 0
            for c in mro[i + 1:]:
                if isinstance(c, Cls):
                    m = self.own_member(c, name, st)
                    if m is not None:
                        return self.bind_member(o.obj, m, c, st)
                elif isinstance(c, Ext):
                    return self.models.super_attr(self, c, o.obj, name, st)
            return self.models.super_attr(self, Ext("builtins.object"), o.obj, name, st)
        if isinstance(o, Arr):
            return self.models.arr_attr(self, o, name, st)
        if isinstance(o, Py):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return const(o.name)
            if name == "__call__":
                return o
            return None
        if isinstance(o, (Func, Bound)):
            f = o.func if isinstance(o, Bound) else o
            if name in ("__name__", "__qualname__"):
                return const(getattr(f.node, "name", "<lambda>"))
            if name == "__doc__":
                return NONE
            if name == "__call__":
                return o
            if name == "__self__" and isinstance(o, Bound):
                return o.obj
            if name == "__func__" and isinstance(o, Bound):
                return o.func
            return mk("attr", self.term(o, st), name)
        if isinstance(o, T):
            return self.models.term_attr(self, o, name, st)
        if isinstance(o, self.models.AtIdx):
            return self.models.at_attr(self, o, name, st)
        return None

    def bind_member(self, o, m, c, st):
        if isinstance(m, Func):
            if "property" in m.tags:
                return self.call(Bound(o, m), [], {}, None, st)
            if "builtins.staticmethod" in m.tags:
                return m
            if "classmethod" in m.tags:
                return Bound(c, m)
            return Bound(o, m)
        if isinstance(m, Py) or isinstance(m, T) or isinstance(m, V):
            return m
        return m

    def e_Subscript(self, n, fr, st):
        o = self.eval(n.value, fr, st)
        k = self.eval_index(n.slice, fr, st)
        return self.getitem(o, k, st)

    def eval_index(self, n, fr, st):
        if isinstance(n, ast.Slice):
            return Tup([NONE if x is None else self.eval(x, fr, st) for x in (n.lower, n.upper, n.step)], "slice")
        if isinstance(n, ast.Tuple):
            return Tup([self.eval_index(e, fr, st) for e in n.elts])
        return self.eval(n, fr, st)

    e_Slice = lambda self, n, fr, st: self.eval_index(n, fr, st)

    def getitem(self, o, k, st):
        if isinstance(o, T) and o.op == "obj" and isinstance(o.args[0], str):
            num = lambda x: None if x is NONE else int(x.args[0]) if isinstance(x, T) and x.op == "num" and x.args[0].denominator == 1 else 1 / 0
            try:
                return const(o.args[0][slice(*map(num, k.items))] if isinstance(k, Tup) and k.kind == "slice" else o.args[0][num(k)])
            except ZeroDivisionError:
                pass
            except IndexError:
                raise AbsRaise("IndexError", sure=True)
        return self.models.getitem(self, o, k, st)

    def e_Starred(self, n, fr, st):
        return Splat(self.eval(n.value, fr, st), fresh("star"))

    def e_Yield(self, n, fr, st):
        v = NONE if n.value is None else self.eval(n.value, fr, st)
        self.event(st, "yield", v)
        ref = getattr(fr, "yields", None)
        if ref is not None:
            p = self.get(st, ref)
            st.heap[ref.i] = PList(p.items + (v,))
        return mk("app", "yield_result")

    def e_YieldFrom(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        self.event(st, "yield_from", v)
        ref = getattr(fr, "yields", None)
        if ref is not None:
            p = self.get(st, ref)
            st.heap[ref.i] = PList(p.items + tuple(self.seq_items(v, st)))
        return NONE

    def e_Await(self, n, fr, st):
        return self.eval(n.value, fr, st)

    # comprehensions
    def comp(self, n, fr, st, add):
        """n: generators list; add(fr, st): evaluate the element"""
        scope = self.alloc(st, PScope({}, fr.scope))
        f2 = Frame(scope, fr.mod, fr.qual, fr.func, fr.cls)
        f2.exits = []
        out = []

        def go(gens, st, tags):
            if not gens:
                v = add(f2, st)
                for t in reversed(tags):
                    v = Splat(v, t)
                out.append(v)
                return
            g = gens[0]
            it = self.eval(g.iter, f2, st)
            items = self.iter_items(it, st)
            if items is None:
                items = [Splat(self.element(it, st), ("elems", self.term(it, st)))]
            for x in items:
                tg = tags
                if isinstance(x, Splat):
                    tg = tags + [("each", "comp", x.tag)]
                    x = x.value
                self.assign(g.target, x, f2, st)
                conds = []
                skip = False
                pc = st.pc
                for c in g.ifs:
                    cv = self.known(self.truth(self.eval(c, f2, st), st), st)
                    if cv is FALSE:
                        skip = True
                        break
                    if cv is not TRUE:
                        conds.append(cv)
                        st.pc = st.pc + (cv,)
                if skip:
                    st.pc = pc
                    continue
                t2 = tg + [("if", c) for c in conds]
                go(gens[1:], st, t2)
                st.pc = pc

        go(n, st, [])
        return out

    def e_ListComp(self, n, fr, st):
        return self.alloc(st, PList(self.comp(n.generators, fr, st, lambda f, s: self.eval(n.elt, f, s))))

    def e_GeneratorExp(self, n, fr, st):
        return Tup(self.comp(n.generators, fr, st, lambda f, s: self.eval(n.elt, f, s)), "gen")

    def e_SetComp(self, n, fr, st):
        return self.make_set(self.comp(n.generators, fr, st, lambda f, s: self.eval(n.elt, f, s)), st)

    def make_set(self, items, st):
        if not self.concrete or any(isinstance(x, (Splat, Phi)) for x in items):
            return Tup(items, "set")
        out = []
        for x in items:
            c = self.contains(x, Tup(out), st)
            if c is FALSE:
                out.append(x)
            elif c is not TRUE:
                return Tup(items, "set")
        return self.alloc(st, PSet(out))

    def e_DictComp(self, n, fr, st):
        pairs = self.comp(n.generators, fr, st, lambda f, s: Tup([self.eval(n.key, f, s), self.eval(n.value, f, s)]))
        d, rest = {}, None
        for x in pairs:
            if isinstance(x, Splat):
                rest = mk("dictcomp", self.term(x, st)) if rest is None else mk("dmerge", rest, mk("dictcomp", self.term(x, st)))
                continue
            k = self.dkey(x.items[0])
            if k is None:
                rest = mk("dictcomp", self.term(x, st))
            else:
                d[k] = x.items[1]
        return self.alloc(st, PDict(d, rest))

    # ----------------------------------------------------------------- calls
    def e_Call(self, n, fr, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            if not n.args:
                f = fr
                selfname = fr.func.node.args.args[0].arg if fr.func is not None and not isinstance(fr.func.node, ast.Lambda) and fr.func.node.args.args else None
                if fr.func is None or fr.func.cls is None or selfname is None:
                    raise GiveUp("super()")
                return Sup(fr.func.cls, self.lookup(selfname, fr, st))
        fv = self.eval(n.func, fr, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                items = self.iter_items(v, st)
                if items is None:
                    args.append(Splat(v, "*"))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, fr, st))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.get(st, v), PDict):
                    p = self.get(st, v)
                    for kk, vv in p.d.items():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                    if p.rest is not None:
                        kwargs["**"] = p.rest
                else:
                    kwargs["**"] = self.term(v, st)
            else:
                kwargs[k.arg] = v
        self.callsites += 1
        self.curcall = n
        return self.call(fv, args, kwargs, fr, st, n)

    def call(self, fv, args, kwargs, fr, st, node=None):
        if isinstance(fv, Phi):
            return self.fork(fv.c, lambda s: self.call(fv.a, args, kwargs, fr, s, node), lambda s: self.call(fv.b, args, kwargs, fr, s, node), st)
        if isinstance(fv, Func):
            return self.call_func(fv, args, kwargs, st)
        if isinstance(fv, Tup) and getattr(fv, "on_call", None) is not None:
            return fv.on_call(self, list(args), dict(kwargs), st)
        if isinstance(fv, Bound):
            if isinstance(fv.func, Func):
                return self.call_method(fv.obj, fv.func, args, kwargs, st)
            return self.call(fv.func, [fv.obj] + args, kwargs, fr, st)
        if isinstance(fv, Cls):
            h = self.class_models.get(f"{fv.mod.name}.{fv.node.name}") if self.class_models else None
            if h is not None:
                return h(self, fv, args, kwargs, st)
            return self.construct(fv, args, kwargs, st)
        if isinstance(fv, NTCls):
            return self.make_nt(fv.fields, args, kwargs, fv, {})
        if isinstance(fv, Py):
            return fv.fn(self, args, kwargs, st)
        if isinstance(fv, Ref):
            p = self.get(st, fv)
            if isinstance(p, PInst):
                m, c = self.class_member(p.cls, "__call__", st)
                if m is not None:
                    return self.call_method(fv, m, args, kwargs, st)
                r = self.models.inst_call(self, fv, p, args, kwargs, st)
                if r is not None:
                    return r
            raise GiveUp("call of object without __call__")
        if isinstance(fv, Ext):
            return self.models.call_ext(self, fv.name, args, kwargs, st, node)
        if isinstance(fv, T):
            return self.opaque_call(fv, args, kwargs, st, node)
        raise GiveUp(f"call of {fv}")

    def opaque_call(self, fv, args, kwargs, st, node=None):
        """user supplied callable: observable event, result depends on callee, arguments, order"""
        n = self.seqno(st, fv)
        targs = tuple(self.term(a, st) for a in args)
        tkw = tuple((k, self.term(v, st)) for k, v in sorted(kwargs.items()))
        kwt = tuple(mk("kw", k, v) for k, v in tkw)
        r = mk("call", fv, *targs, *kwt) if n == 0 else mk("call", fv, *targs, *kwt, mk("nth", n))
        ev = ((st.pc, "call", fv, tuple(args), tuple(sorted(kwargs.items())), r, getattr(node, "lineno", 0)),)
        st.events = st.events + ev
        return r

    def call_method(self, obj, func, args, kwargs, st):
        if isinstance(obj, Ref):
            p = self.get(st, obj)
            if isinstance(p, PInst) and self.models.is_nn_module(self, p.cls):
                self.models.ensure_setup(self, obj, st)
                p = self.get(st, obj)
                if p.path is None:
                    return self.call_func(func, [obj] + args, kwargs, st)
                self.path.append(p.path)
                self.counters_push()
                try:
                    return self.call_func(func, [obj] + args, kwargs, st)
                finally:
                    self.path.pop()
                    self.counters_pop()
        return self.call_func(func, [obj] + args, kwargs, st)

    def counters_push(self):
        self._cstack = getattr(self, "_cstack", [])
        self._cstack.append(self.counters)
        self.counters = {}

    def counters_pop(self):
        self.counters = self._cstack.pop()

    def bind_args(self, func, args, kwargs, st):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = []
        for x in args:
            pos.append(x)
        kw = dict(kwargs)
        star2 = kw.pop("**", None)
        i = 0
        for nm in names:
            if i < len(pos):
                if isinstance(pos[i], Splat):
                    # unknown positional tail
                    v = pos[i].value
                    out[nm] = mk("item", self.term(v, st), len(out))
                    continue
                out[nm] = pos[i]
                i += 1
        rest = pos[i:]
        rest = [x for x in rest]
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(rest)
        elif rest and not isinstance(rest[0], Splat):
            raise AbsRaise("TypeError", sure=True)
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in out and k in names[: i]:
                    raise AbsRaise("TypeError", sure=True)
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(st, PDict(extra, star2))
        elif extra:
            raise AbsRaise("TypeError", sure=True)
        nd = len(func.defaults)
        for j, nm in enumerate(names):
            if nm not in out:
                di = j - (len(names) - nd)
                if di >= 0:
                    out[nm] = func.defaults[di]
                elif star2 is not None:
                    out[nm] = mk("kwitem", star2, nm)
                else:
                    raise AbsRaise("TypeError", sure=True)
        for x, d in zip(kwonly, func.kwdefaults):
            if x not in out:
                if d is None:
                    if star2 is not None:
                        out[x] = mk("kwitem", star2, x)
                        continue
                    raise AbsRaise("TypeError", sure=True)
                out[x] = d
        return out

    def call_func(self, func, args, kwargs, st):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise GiveUp("inlining depth")
        try:
            h = self.handlers.get(f"{func.mod.name}.{func.qual}") if func.mod else None
            if h is not None:
                return h(self, args, kwargs, st)
            self.visited.add((func.mod.rel, func.qual))
            if func.cls is not None and func.cls.scope is not None and func.scope is None:
                pass
            loc = self.bind_args(func, args, kwargs, st)
            scope = self.alloc(st, PScope(loc, func.scope))
            fr = Frame(scope, func.mod, func.qual, func, func.cls)
            fr.base = len(st.pc)
            n = func.node
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, fr, st)
            if "contextlib.contextmanager" in func.tags and is_generator(n):
                return CM(func, scope)
            if is_generator(n):
                fr.yields = self.alloc(st, PList(()))
            entry_pc = st.pc
            work = st.copy()
            r = self.exec_block(n.body, fr, work)
            outs = []
            for kind, v, s, nd in fr.exits:
                if kind == "return":
                    outs.append((v, s))
            if r is not None:
                outs.append((NONE, r))
            if not outs:
                exc = next((v for k, v, s, nd in fr.exits if k == "raise"), "exception")
                rs = next((s for k, v, s, nd in fr.exits if k == "raise"), None)
                if rs is not None:
                    st.become(rs)
                e = getattr(fr, "last_raise", None)
                if e is not None and e.sure and rs is not None and not rs.pc:
                    raise AbsRaise(exc, True, e.where)
                raise AbsRaise(exc)
            val, s = outs[-1]
            for v2, s2 in reversed(outs[:-1]):
                c = TRUE
                for x in s2.pc[fr.base:]:
                    if x.op == "inloop":
                        continue
                    c = and_(c, x)
                val = self.phi(c, v2, val)
                s = self.merge(c, s2, s)
            s.pc = entry_pc
            st.become(s)
            if fr.yields is not None:
                return fr.yields
            return val
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ construct
    def namedtuple_fields(self, c):
        """(names, defaults) when c is a typing.NamedTuple subclass"""
        mro = self.mro(c)
        if not any(isinstance(x, Ext) and x.name in ("typing.NamedTuple", "typing_extensions.NamedTuple") for x in mro):
            return None
        names, defaults = [], {}
        for k in reversed([x for x in mro if isinstance(x, Cls)]):
            for x in k.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    names.append(x.target.id)
                    if x.value is not None:
                        defaults[x.target.id] = (x.value, k)
        return names, defaults

    def make_nt(self, names, args, kwargs, cls, defaults):
        vals = {}
        if any(isinstance(a, Splat) for a in args):
            raise GiveUp("splat into namedtuple")
        if len(args) > len(names):
            raise AbsRaise("TypeError", sure=True)
        for nm, v in zip(names, args):
            vals[nm] = v
        for k, v in kwargs.items():
            if k not in names:
                raise AbsRaise("TypeError", sure=True)
            vals[k] = v
        for nm in names:
            if nm not in vals:
                if nm in defaults:
                    x, k = defaults[nm]
                    vals[nm] = self.eval(x, Frame(k.scope, k.mod, k.qual), S())
                else:
                    raise AbsRaise("TypeError", sure=True)
        return Tup([vals[nm] for nm in names], "namedtuple", tuple(names), cls)

    def is_dataclass(self, c):
        for d in c.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            nm = self.ext_name(e, Frame(c.scope, c.mod, c.qual), S())
            if nm in ("dataclasses.dataclass", "flax.struct.dataclass", "chex.dataclass"):
                return True
        return False

    def dc_fields(self, c):
        """ordered (name, default expr or None, owner)"""
        out = {}
        flax = self.models.is_flax_module(self, c)
        for k in reversed([x for x in self.mro(c) if isinstance(x, Cls)]):
            if not flax and not self.is_dataclass(k):
                continue
            for x in k.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    out[x.target.id] = (x.value, k)
        return out

    def construct(self, c, args, kwargs, st):
        nt = self.namedtuple_fields(c)
        if nt is not None:
            return self.make_nt(nt[0], args, kwargs, c, nt[1])
        if len(args) == 1 and any(isinstance(b, Ext) and b.name in ("tuple", "builtins.tuple") for b in self.mro(c)):
            # a subclass of tuple: a sequence that JAX treats as a leaf
            items = self.iter_items(args[0], st)
            if items is None:
                raise GiveUp(f"{c.node.name} of an unknown sequence")
            return Tup(items, "leaf", None, c)
        path = self.models.instance_path(self, c, kwargs, st)
        ref = self.alloc(st, PInst(c, {}, path))
        init, owner = self.class_member(c, "__init__", st)
        if init is not None:
            self.call_func(init, [ref] + args, kwargs, st) if isinstance(init, Func) else None
            if self.models.is_nn_module(self, c):
                self.models.rename(self, ref, c, st)
            return ref
        if self.is_dataclass(c) or self.models.is_flax_module(self, c):
            fields = self.dc_fields(c)
            attrs = {}
            names = [nm for nm, (d, k) in fields.items() if not self.no_init(d, k)]
            if self.models.is_flax_module(self, c):
                kwargs = dict(kwargs)
                kwargs.pop("name", None)
                kwargs.pop("parent", None)
            for nm, v in zip(names, args):
                attrs[nm] = v
            for k, v in kwargs.items():
                if k == "**":
                    continue
                if k not in fields:
                    raise AbsRaise("TypeError", sure=True)
                attrs[k] = v
            for nm, (d, k) in fields.items():
                if nm in attrs:
                    continue
                if d is None:
                    raise AbsRaise("TypeError", sure=True)
                v = self.dc_default(d, k, st)
                if v is None and not self.no_init(d, k):
                    raise AbsRaise("TypeError", sure=True)
                attrs[nm] = v
            p = self.get(st, ref)
            attrs = {k: v for k, v in attrs.items() if v is not None}
            st.heap[ref.i] = PInst(c, attrs, p.path)
            post, _ = self.class_member(c, "__post_init__", st)
            if post is not None and isinstance(post, Func):
                self.call_func(post, [ref], {}, st)
            return ref
        r = self.models.construct_ext(self, c, ref, args, kwargs, st)
        if self.models.is_nn_module(self, c) and self.get(st, ref).path is None:
            self.models.hk_module_init(self, ref, args, kwargs, st)
        return r

    def no_init(self, d, k):
        """field(init=False)"""
        return isinstance(d, ast.Call) and any(w.arg == "init" and isinstance(w.value, ast.Constant) and w.value.value is False for w in d.keywords)

    def dc_default(self, d, k, st):
        fr = Frame(k.scope, k.mod, k.qual)
        if isinstance(d, ast.Call):
            nm = self.ext_name(d.func, fr, st)
            if nm == "dataclasses.field" or nm == "flax.struct.field":
                for kw in d.keywords:
                    if kw.arg == "default_factory":
                        f = self.eval(kw.value, fr, st)
                        return self.call(f, [], {}, fr, st)
                    if kw.arg == "default":
                        return self.class_value(kw.value, fr, st)
                return None
        return self.class_value(d, fr, st)

    def class_value(self, d, fr, st):
        """a default evaluated once, when the class is defined: all instances share it"""
        if fr.scope is not None:
            return self.eval(d, fr, st)
        key = (id(d), "<default>")
        if key not in self.gcache:
            s = S()
            s.heap = self.gheap
            self.gcache[key] = self.eval(d, fr, s)
        return self.gcache[key]

    # ----------------------------------------------------------- state slots
    def read_slot(self, key, st):
        if key in st.store:
            return st.store[key]
        if key in self.slot_sym:
            return self.slot_sym[key]
        return NONE

    def write_slot(self, key, v, st):
        st.store[key] = v
        self.event(st, "write", key)

    def declare_slot(self, key, init_thunk, st, name=None):
        """first access of a state slot in this step"""
        if key in st.store:
            return st.store[key]
        if key not in self.slot_sym:
            s2 = st.copy()
            try:
                init = init_thunk(s2)
            except AbsRaise:
                init = mk("opaque", "init")
            init = self.freeze(init, s2)
            self.slot_init[key] = init
            ov = self.slot_override.get(key)
            if ov is None:
                ov = self.slot_override.get(key.split("/")[-1])
            if callable(ov):
                ov = ov(self, key, init)
            if ov is not None:
                self.slot_sym[key] = ov
            elif self.init_mode:
                self.slot_sym[key] = init
            else:
                self.slot_sym[key] = self.mirror(init, key)
            for i, p in s2.heap.items():
                st.heap.setdefault(i, p)
        st.store[key] = self.slot_sym[key]
        return st.store[key]

    def freeze(self, v, st):
        """turn mutable containers of an initial state into plain structure"""
        if isinstance(v, Ref):
            p = self.get(st, v)
            if isinstance(p, PList):
                return Tup([self.freeze(x, st) for x in p.items], "list")
            if isinstance(p, PDict) and p.rest is None:
                return v
            return v
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st) for x in v.items], v.kind, v.names, v.cls)
        return v


def is_generator(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    raise GiveUp("augmented assignment target")
