"""Effect analysis: which of its arguments (or which module-level object) a function may change in place.

A value is abstracted to Val(own, items, keys): the origins it may be, its elements, and the elements known by constant
key or position. An object of a caller contains objects of the same origin. Origins are parameters ("p", name) of the
analysed function (and of enclosing ones, for closures) and module-level containers ("g", name).
Flow-sensitive over the syntax tree; summaries of package functions are composed to a fixpoint.
"""
import ast

from .project import dotted
from .rules.r80_refs import Classes, resolve, target

DEF = (ast.FunctionDef, ast.AsyncFunctionDef)
NONE = frozenset()
DEPTH = 4


class Val:
    __slots__ = ("own", "items", "keys")

    def __init__(self, own=NONE, items=None, keys=None):
        self.own, self.items, self.keys = own, items, keys or {}

    def elem(self, key=None):
        """an element (of a constant key when known)"""
        if key is not None and key in self.keys:
            return self.keys[key]
        v = self.items if self.items is not None else FRESH
        if self.own:
            v = join(v, Val(self.own))
        if key is None:
            for x in self.keys.values():
                v = join(v, x)
        return v

    def shallow(self):
        """a new container with the same elements"""
        return cut(Val(NONE, self.items if not self.own else join(self.items or FRESH, Val(self.own)), self.keys))

    def all(self, d=0):
        if d > DEPTH + 2:
            return self.own
        out = self.own | (self.items.all(d + 1) if self.items is not None else NONE)
        for x in self.keys.values():
            out |= x.all(d + 1)
        return out

    def map(self, f):
        return Val(f(self.own), self.items and self.items.map(f), {k: v.map(f) for k, v in self.keys.items()})


FRESH = Val()


def cut(v, d=0):
    """bounded depth; what is deeper counts as fresh"""
    if v is None or v is FRESH:
        return v
    if d >= DEPTH:
        return Val(v.own)
    if v.items is None and not v.keys:
        return v
    return Val(v.own, cut(v.items, d + 1), {k: cut(x, d + 1) for k, x in v.keys.items()})


def join(a, b):
    if a is b or b is FRESH:
        return a
    if a is FRESH:
        return b
    items = a.items if b.items is None else b.items if a.items is None else join(a.items, b.items)
    keys = {}
    for k in set(a.keys) | set(b.keys):
        x, y = a.keys.get(k), b.keys.get(k)
        keys[k] = join(x if x is not None else a.elem(k), y if y is not None else b.elem(k))
    return cut(Val(a.own | b.own, items, keys))


def box(*vals):
    """a new container of these"""
    v = FRESH
    for x in vals:
        v = join(v, x)
    return FRESH if v is FRESH else cut(Val(NONE, v))


# certain container changes: no object of the package or its libraries has these as non-mutating methods
SURE = {"append", "extend", "appendleft", "extendleft", "popitem", "setdefault", "popleft"}
# container changes only on something known as a container
MAYBE = {"update", "add", "remove", "discard", "clear", "insert", "sort", "reverse", "pop", "fill", "rotate", "resize", "put", "itemset", "partition", "symmetric_difference_update", "difference_update", "intersection_update", "difference_update"}
ELEMENT = {"get", "pop", "popitem", "setdefault", "values", "items", "popleft", "__getitem__"}
SHALLOW = {"dict", "list", "tuple", "set", "frozenset", "sorted", "reversed", "zip", "enumerate", "filter", "iter", "next", "collections.OrderedDict", "collections.deque", "collections.defaultdict", "copy.copy", "flax.core.FrozenDict", "flax.core.freeze", "flax.core.unfreeze", "flax.core.frozen_dict.FrozenDict", "itertools.chain", "types.MappingProxyType", "collections.ChainMap"}
ALIAS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "typing.cast"}
INPLACE = {"numpy.copyto": 0, "numpy.put": 0, "numpy.fill_diagonal": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.random.shuffle": 0, "random.shuffle": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "bisect.insort": 0, "setattr": 0, "delattr": 0, "object.__setattr__": 0, "operator.setitem": 0, "operator.delitem": 0, "numpy.add.at": 0}
VIEWS = {"T", "values", "flat", "real", "imag", "data", "__dict__"}
VIEW_METHODS = {"ravel", "reshape", "squeeze", "transpose", "view", "swapaxes", "to_numpy"}
CONTAINER_ANN = {"dict", "list", "set", "Dict", "List", "Set", "MutableMapping", "Mapping", "deque", "defaultdict", "ndarray", "OrderedDict", "DefaultDict", "Deque", "MutableSequence", "Sequence"}


def ann_container(a):
    """the annotation names a container (possibly optional)"""
    if a is None:
        return False
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(a, ast.BinOp):
        return ann_container(a.left) or ann_container(a.right)
    if isinstance(a, ast.Subscript):
        d = dotted(a.value)
        if d and d.split(".")[-1] in ("Optional", "Union"):
            els = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            return any(ann_container(e) for e in els)
        return ann_container(a.value)
    d = dotted(a)
    return bool(d) and d.split(".")[-1] in CONTAINER_ANN


def params(f):
    a = f.args
    return [x for x in a.posonlyargs + a.args + a.kwonlyargs]


class Effects:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.stack = []
        self.sites = 0
        self.fields = {}
        self.classes = Classes(p)
        self.methods = {}     # names of methods defined in the package: ambiguous mutator names
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    for f in n.body:
                        if isinstance(f, DEF):
                            self.methods.setdefault(f.name, []).append((m, f))

    def summary(self, m, f):
        """(changes: {origin: (node, text)}, returned value) of a function; nested functions are included"""
        k = id(f)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = ({}, FRESH)
        fa = Fn(self, m, f, None)
        fa.run()
        self.memo[k] = (fa.changes, fa.ret)
        return self.memo[k]


    def field(self, m, c, name):
        """a field of self: what the constructor was given, if every assignment of it is a plain parameter or the field is a dataclass field"""
        if c is None:
            return FRESH
        k = (id(c), name)
        if k not in self.fields:
            i = self.classes.info(m, c)
            v = FRESH
            if i["kinds"] & {"flax", "hk", "data"}:
                if given_field(c, name):
                    v = Val(frozenset([("f", f"{c.name}.{name}")]))
            if "data" not in i["kinds"] and "flax" not in i["kinds"] and not stored(c, name):
                v = class_level(c, name)
            self.fields[k] = v
        return self.fields[k]


def stored(c, name):
    """some method assigns the attribute of its object"""
    for f in c.body:
        if isinstance(f, DEF):
            a = f.args.posonlyargs + f.args.args
            for n in ast.walk(f):
                if a and isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == a[0].arg:
                    return True
    return False


def class_level(c, name):
    """a container that is an attribute of the class itself: shared by all its objects"""
    for s in c.body:
        t, v = (s.targets[0], s.value) if isinstance(s, ast.Assign) else (s.target, s.value) if isinstance(s, ast.AnnAssign) else (None, None)
        if isinstance(t, ast.Name) and t.id == name and (isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in ("dict", "list", "set", "defaultdict", "OrderedDict", "deque")):
            return Val(frozenset([("g", f"{c.name}.{name}")]))
    return FRESH


def given_field(c, name):
    stores = []
    for f in c.body:
        if isinstance(f, ast.AnnAssign) and isinstance(f.target, ast.Name) and f.target.id == name:
            v = f.value
            if isinstance(v, ast.Call) and any(k.arg in ("default_factory",) for k in v.keywords):
                return False
            if ann_container(f.annotation):
                stores.append(True)
        if isinstance(f, DEF):
            a = f.args.posonlyargs + f.args.args
            if not a:
                continue
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        for x, v in zip(t.elts, n.value.elts) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) else [(t, n.value)]:
                            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == a[0].arg:
                                ps = {y.arg: y for y in params(f)}
                                stores.append(f.name == "__init__" and isinstance(v, ast.Name) and v.id in ps and ann_container(ps[v.id].annotation))
    return bool(stores) and all(stores)


class Fn:
    def __init__(self, E, m, f, outer):
        self.E, self.m, self.f, self.outer = E, m, f, outer
        self.changes = outer.changes if outer else {}
        self.ret = FRESH
        self.env = dict(outer.env) if outer else {}
        self.containers = set(outer.containers) if outer else set()
        ps = params(f)
        self.me = None
        par = getattr(f, "_parent", None)
        if isinstance(par, ast.ClassDef) and ps and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
            self.me = ps[0].arg
        elif outer:
            self.me = outer.me
        self.globals = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
        pre = self.prefix = (outer.prefix + f.name + "." if outer else "")
        for x in ps:
            if x.arg == self.me:
                self.env[x.arg] = FRESH
                continue
            self.env[x.arg] = Val(frozenset([("p", pre + x.arg)]))
            if ann_container(x.annotation):
                self.containers.add(("p", pre + x.arg))
        for x in (f.args.vararg, f.args.kwarg):
            if x:
                self.env[x.arg] = box(Val(frozenset([("p", pre + x.arg)])))
        self.local = None
        self.nested = {}

    # -- values
    def value(self, e):
        if e is None:
            return FRESH
        t = type(e)
        if t is ast.Name:
            if e.id in self.env:
                return self.env[e.id]
            if e.id == self.me:
                return FRESH
            r = self.m.bind.get(e.id)
            if r and r[0] == "assign" and isinstance(r[1], (ast.Dict, ast.List, ast.Set, ast.Call)) and self.module_container(r[1]):
                return Val(frozenset([("g", f"{self.m.name}.{e.id}")]))
            return FRESH
        if t is ast.Attribute:
            if isinstance(e.value, ast.Name) and e.value.id == self.me:
                return self.E.field(self.m, self.m_class(), e.attr)
            r = target(self.E.p, self.m, e.value) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if r is not None and r[0] == "class":
                return class_level(r[2], e.attr)
            v = self.value(e.value)
            if e.attr in ("at", "shape", "dtype", "ndim", "size"):
                return FRESH
            if e.attr in VIEWS:
                return v
            return v.elem()
        if t is ast.Subscript:
            v = self.value(e.value)
            self.value(e.slice)
            if isinstance(e.slice, ast.Slice):
                return v.shallow()
            return v.elem(e.slice.value if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, (str, int)) else None)
        if t is ast.Call:
            return self.call(e)
        if t is ast.IfExp:
            self.value(e.test)
            return join(self.value(e.body), self.value(e.orelse))
        if t is ast.BoolOp:
            v = FRESH
            for x in e.values:
                v = join(v, self.value(x))
            return v
        if t is ast.NamedExpr:
            v = self.value(e.value)
            self.env[e.target.id] = v
            return v
        if t in (ast.List, ast.Tuple, ast.Set):
            vals = [self.value(x) for x in e.elts]
            if t is ast.Set or any(isinstance(x, ast.Starred) for x in e.elts):
                return box(*vals)
            return cut(Val(NONE, None, dict(enumerate(vals))))
        if t is ast.Dict:
            out = Val()
            for k, x in zip(e.keys, e.values):
                v = self.value(x)
                if k is None:
                    out = join(out, v.shallow())
                elif isinstance(k, ast.Constant):
                    out = cut(Val(NONE, out.items, {**out.keys, k.value: v}))
                else:
                    self.value(k)
                    out = join(out, box(v))
            return out
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            saved = dict(self.env)
            for g in e.generators:
                self.bind(g.target, self.elements(g.iter))
                for c in g.ifs:
                    self.value(c)
            if t is ast.DictComp:
                self.value(e.key)
                v = self.value(e.value)
            else:
                v = self.value(e.elt)
            self.env = saved
            return box(v)
        if t is ast.Starred:
            return self.value(e.value).elem()
        if t in (ast.Await, ast.YieldFrom):
            return self.value(e.value)
        if t is ast.Yield:
            self.ret = join(self.ret, box(self.value(e.value)))
            return FRESH
        if t is ast.Lambda:
            self.nest(e)
            return FRESH
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.value(x)
        return FRESH

    def module_container(self, e):
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            return d is not None and d.split(".")[-1] in ("dict", "list", "set", "defaultdict", "OrderedDict", "deque", "Counter", "WeakKeyDictionary", "WeakValueDictionary", "WeakSet")
        return True

    def elements(self, it):
        return self.value(it).elem()

    def nest(self, e):
        """a lambda: its body runs in the environment of its definition"""
        saved = dict(self.env)
        for x in params(e) + [y for y in (e.args.vararg, e.args.kwarg) if y]:
            self.env[x.arg] = FRESH
        self.value(e.body)
        self.env = saved

    def call(self, e):
        args = [self.value(a) for a in e.args]
        kws = {k.arg: self.value(k.value) for k in e.keywords}
        fn = e.func
        self.E.sites += 1
        if "out" in kws:
            self.change(kws["out"].own, e, "out=")
        inplace = any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords)
        if isinstance(fn, ast.Attribute):
            self_method = isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.me is not None
            tgt = target(self.E.p, self.m, fn)
            if tgt is None and not self_method:
                v = self.value(fn.value)
                if inplace:
                    self.change(v.own, e, f".{fn.attr}(inplace=True)")
                n = len(e.args)
                at = isinstance(fn.value, ast.Subscript) and isinstance(fn.value.value, ast.Attribute) and fn.value.value.attr == "at"
                if not at:
                    if fn.attr in SURE:
                        if not (fn.attr == "append" and n > 1):
                            self.change(v.own, e, f".{fn.attr}(...)")
                        if isinstance(fn.value, ast.Name) and args and args[-1] is not FRESH:
                            self.put(fn.value.id, args[-1] if fn.attr not in ("extend", "extendleft") else args[-1].elem())
                    elif fn.attr in MAYBE:
                        ok = fn.attr not in self.E.methods or any(o in self.containers for o in v.own)
                        if fn.attr == "update" and (n > 1 or not any(o in self.containers for o in v.own) and n == 0):
                            ok = False
                        if fn.attr in ("add", "remove", "clear", "insert", "discard", "put", "fill", "reverse", "sort", "update") and not all(o in self.containers or o[0] == "g" or o[1].split(".")[-1] in self.subscripted() for o in v.own):
                            ok = False
                        if ok:
                            self.change(v.own, e, f".{fn.attr}(...)")
                if fn.attr in ("values", "items"):
                    el = v.elem()
                    return box(el if fn.attr == "values" else Val(NONE, None, {0: FRESH, 1: el}))
                if fn.attr in ELEMENT:
                    k = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, (str, int)) else None
                    r = v.elem(k if fn.attr != "popitem" else None)
                    return join(r, args[1]) if len(args) > 1 else r
                if fn.attr in ("copy", "union"):
                    return v.shallow()
                if fn.attr in VIEW_METHODS:
                    return v
                return FRESH
            if self_method:
                c = self.m_class()
                f = next((x for x in (c.body if c else []) if isinstance(x, DEF) and x.name == fn.attr), None)
                if f is not None:
                    return self.apply(self.m, f, args, kws, e, True)
                return FRESH
        else:
            tgt = target(self.E.p, self.m, fn)
            g = self.find_nested(fn.id) if isinstance(fn, ast.Name) else None
            if g is not None:
                return self.apply_nested(g, args, kws, e)
        if tgt is None:
            self.value(fn) if not isinstance(fn, ast.Name) else None
            return FRESH
        if tgt[0] == "ext":
            d = tgt[1]
            d = {"onp": "numpy"}.get(d.split(".")[0], d.split(".")[0]) + d[len(d.split(".")[0]):]
            if d in INPLACE and args:
                self.change(args[INPLACE[d]].own, e, f"{d}(...)")
            if d == "next" and args:
                return args[0].elem()
            if d == "zip":
                return box(Val(NONE, None, dict(enumerate(a.elem() for a in args))))
            if d == "enumerate" and args:
                return box(Val(NONE, None, {0: FRESH, 1: args[0].elem()}))
            if d == "filter" and len(args) > 1:
                return args[1].shallow()
            if d in SHALLOW:
                v = FRESH
                for a in args:
                    v = join(v, a.shallow())
                for k, a in kws.items():
                    if k is None:
                        v = join(v, a.shallow())
                    elif d == "dict":
                        v = cut(Val(NONE, v.items, {**v.keys, k: a}))
                return v
            if d == "getattr" and args:
                return args[0].elem()
            if d in ALIAS and args:
                return args[1] if d == "typing.cast" and len(args) > 1 else args[0]
            return FRESH
        if tgt[0] in ("def", "method"):
            return self.apply(tgt[1], tgt[2], args, kws, e, tgt[0] == "method" and False)
        if tgt[0] == "class":
            init = next((x for x in tgt[2].body if isinstance(x, DEF) and x.name == "__init__"), None)
            if init is not None:
                self.apply(tgt[1], init, args, kws, e, True)
            return box(*args, *kws.values())
        return FRESH

    def subscripted(self):
        """parameters of which this function (or an enclosing one) uses items by string keys: containers for sure"""
        if self.local is None:
            self.local = set()
            f = self
            while f is not None:
                for n in ast.walk(f.f):
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and not isinstance(n.slice, ast.Slice):
                        self.local.add(n.value.id)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("items", "keys", "values", "get") and isinstance(n.func.value, ast.Name):
                        self.local.add(n.func.value.id)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[0], ast.Name):
                        ts = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
                        if all((dotted(x) or "").split(".")[-1] in CONTAINER_ANN for x in ts):
                            self.local.add(n.args[0].id)
                f = f.outer
        return self.local

    def classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.f.decorator_list)

    def m_class(self):
        n = self.f
        while n is not None and not isinstance(n, ast.ClassDef):
            n = getattr(n, "_parent", None)
        return n

    def find_nested(self, name):
        f = self
        while f is not None:
            if name in f.nested:
                return f.nested[name]
            f = f.outer
        return None

    def apply_nested(self, g, args, kws, e):
        if any(isinstance(a, ast.Starred) for a in e.args):
            return FRESH
        given = dict(zip([g.prefix + x.arg for x in g.f.args.posonlyargs + g.f.args.args], args))
        given.update({g.prefix + k: v for k, v in kws.items() if k is not None})
        for o, (node, text) in list(self.changes.items()):
            if o[0] == "p" and o[1] in given:
                self.change(given[o[1]].own, e, f"{g.f.name}() which does {text} on {o[1].split('.')[-1]}")
        up = lambda s: frozenset().union(*[given[o[1]].own if o[1] in given else frozenset([o]) for o in s]) if s else NONE
        return g.ret.map(up)

    def apply(self, m, f, args, kws, e, bound):
        if any(isinstance(a, ast.Starred) for a in e.args):
            return FRESH
        ch, ret = self.E.summary(m, f)
        ps = [x.arg for x in f.args.posonlyargs + f.args.args]
        if bound:
            ps = ps[1:]
        given = dict(zip(ps, args))
        for k, v in kws.items():
            if k is not None:
                given[k] = v
        for o, (node, text) in ch.items():
            if o[0] == "p" and o[1] in given:
                self.change(given[o[1]].own, e, f"{f.name}() which does {text} on {o[1]}")
            elif o[0] == "g" or o[0] == "f" and bound:
                self.changes.setdefault(o, (e, f"{f.name}() which does {text}"))
        up = lambda s: frozenset().union(*[given[o[1]].own if o[0] == "p" and o[1] in given else frozenset([o]) if o[0] == "g" or o[0] == "f" and bound else NONE for o in s]) if s else NONE
        return ret.map(up)

    # -- effects
    def change(self, origins, node, text):
        for o in origins:
            self.changes.setdefault(o, (node, text))

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                o = ("g", f"{self.m.name}.{t.id}")
                self.changes.setdefault(o, (t, "assignment"))
                return
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = False
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    star = True
                    self.bind(x.value, box(v.elem()))
                else:
                    self.bind(x, v.elem(None if star else i))
        elif isinstance(t, ast.Subscript):
            self.value(t.slice)
            self.change(self.value(t.value).own, t, "an item assignment")
            if isinstance(t.value, ast.Name) and v is not FRESH:
                self.put(t.value.id, v, t.slice.value if isinstance(t.slice, ast.Constant) else None)
        elif isinstance(t, ast.Attribute):
            r = target(self.E.p, self.m, t.value) if isinstance(t.value, (ast.Name, ast.Attribute)) else None
            if r is not None and r[0] == "class":
                self.changes.setdefault(("g", f"{r[2].name}.{t.attr}"), (t, "assignment"))
            elif r is not None and r[0] == "mod":
                self.changes.setdefault(("g", f"{r[1]}.{t.attr}"), (t, "assignment"))
            elif isinstance(t.value, ast.Attribute) and t.value.attr == "__class__" or isinstance(t.value, ast.Call) and dotted(t.value.func) == "type" or isinstance(t.value, ast.Name) and t.value.id == self.me and self.classmethod():
                c = self.m_class()
                self.changes.setdefault(("g", f"{c.name if c else ''}.{t.attr}"), (t, "assignment"))
            elif not (isinstance(t.value, ast.Name) and t.value.id == self.me):
                self.change(self.value(t.value).own, t, f"an assignment of .{t.attr}")

    def put(self, name, v, key=None):
        """an element added to a local container"""
        old = self.env.get(name)
        if old is None:
            return
        if key is not None and not old.own:
            self.env[name] = cut(Val(old.own, old.items, {**old.keys, key: v}))
        else:
            self.env[name] = join(old, box(v))

    def run(self):
        self.block(self.f.body if isinstance(self.f.body, list) else [])

    def block(self, body):
        for s in body:
            self.stmt(s)

    def merge(self, a, b):
        out = {}
        for k in set(a) | set(b):
            out[k] = join(a.get(k, FRESH), b.get(k, FRESH))
        return out

    def stmt(self, s):
        t = type(s)
        if t is ast.Assign:
            v = self.value(s.value)
            for x in s.targets:
                if isinstance(x, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(x.elts) == len(s.value.elts) and not any(isinstance(y, ast.Starred) for y in x.elts + s.value.elts):
                    vals = [self.value(y) for y in s.value.elts]
                    for y, w in zip(x.elts, vals):
                        self.bind(y, w)
                else:
                    self.bind(x, v)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.bind(s.target, self.value(s.value))
        elif t is ast.AugAssign:
            v = self.value(s.value)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.globals:
                    self.changes.setdefault(("g", f"{self.m.name}.{s.target.id}"), (s, "assignment"))
                    return
                old = self.env.get(s.target.id, FRESH)
                if isinstance(s.value, (ast.List, ast.ListComp)) or any(o in self.containers for o in old.own):
                    self.change(old.own, s, "an in-place operator")
                self.env[s.target.id] = join(old, v.shallow())
            else:
                self.bind(s.target, v)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    self.bind(x, FRESH)
                elif isinstance(x, ast.Name):
                    self.env.pop(x.id, None)
        elif t in (ast.Expr,):
            self.value(s.value)
        elif t is ast.Return:
            self.ret = join(self.ret, self.value(s.value))
        elif t is ast.If:
            self.value(s.test)
            a = dict(self.env)
            self.block(s.body)
            b, self.env = self.env, a
            self.block(s.orelse)
            dead = lambda body: body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if dead(s.body):
                pass
            elif dead(s.orelse):
                self.env = b
            else:
                self.env = self.merge(self.env, b)
        elif t in (ast.For, ast.AsyncFor):
            it = self.elements(s.iter)
            for _ in range(2):
                a = dict(self.env)
                self.bind(s.target, it)
                self.block(s.body)
                self.env = self.merge(self.env, a)
            self.block(s.orelse)
        elif t is ast.While:
            for _ in range(2):
                a = dict(self.env)
                self.value(s.test)
                self.block(s.body)
                self.env = self.merge(self.env, a)
            self.block(s.orelse)
        elif t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.value(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, FRESH)
            self.block(s.body)
        elif t is ast.Try:
            a = dict(self.env)
            self.block(s.body)
            ok = dict(self.env)
            outs = []
            for h in s.handlers:
                self.env = self.merge(a, ok)
                if h.name:
                    self.env[h.name] = FRESH
                self.block(h.body)
                if not (h.body and isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                    outs.append(self.env)
            self.env = ok
            self.block(s.orelse)
            for o in outs:
                self.env = self.merge(self.env, o)
            self.block(s.finalbody)
        elif isinstance(s, DEF):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.value(d)
            g = Fn(self.E, self.m, s, self)
            g.run()
            self.nested[s.name] = g
            self.env[s.name] = FRESH
        elif t is ast.ClassDef:
            for f in s.body:
                if isinstance(f, DEF):
                    g = Fn(self.E, self.m, f, self)
                    ps = params(f)
                    if ps:
                        g.me = ps[0].arg
                        g.env[ps[0].arg] = FRESH
                    g.run()
        elif t is ast.Match:
            self.value(s.subject)
            a = dict(self.env)
            for c in s.cases:
                self.env = dict(a)
                self.block(c.body)
            self.env = a
        elif t in (ast.Assert, ast.Raise):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.value(x)


def returned(f):
    """names of nested functions handed out by a function: returned directly or inside a constructed value"""
    out = set()
    todo = list(f.body)
    alias = {}
    while todo:
        n = todo.pop()
        if isinstance(n, DEF + (ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Return) and n.value is not None:
            out |= escaping(n.value)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            alias.setdefault(n.targets[0].id, set()).update(escaping(n.value))
        todo += list(ast.iter_child_nodes(n))
    for _ in range(3):
        for x in list(out):
            out |= alias.get(x, set())
    return out


def escaping(e):
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Tuple, ast.List)):
        return set().union(*[escaping(x) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Dict):
        return set().union(*[escaping(x) for x in e.values]) if e.values else set()
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ""
        last = d.split(".")[-1]
        # constructors of pairs, and wrappers that keep the signature
        if last[:1].isupper() or last in ("jit", "wraps", "partial", "njit", "update_wrapper"):
            vals = list(e.args) + [k.value for k in e.keywords]
            return set().union(*[escaping(x) for x in vals]) if vals else set()
        if isinstance(e.func, ast.Call):
            return set().union(*[escaping(x) for x in e.args]) if e.args else set()
    if isinstance(e, ast.IfExp):
        return escaping(e.body) | escaping(e.orelse)
    return set()


def owner_is_public(f, origin):
    """the function that owns the changed parameter can be called by users of f"""
    parts = origin.split(".")
    node = f
    for name in parts[:-1]:
        if name not in returned(node):
            return False
        node = next((x for x in ast.walk(node) if isinstance(x, DEF) and x.name == name and x is not node), None)
        if node is None:
            return False
    return True


def public(q):
    return not any(x.startswith("_") and not x.startswith("__") for x in q.split("."))
