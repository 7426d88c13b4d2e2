"""W89: results do not depend on hidden inputs or on the order of sets."""
import ast

from ..interp import GiveUp
from ..project import Module, dotted
from ..report import holds, violated
from . import prop
from .r80_refs import resolve, shadowed, target
from .r88_effects import DEF, outer_functions

# parts of the package whose purpose is to measure, to draw or to demonstrate
MEASURING = ("wax.flax.debug", "wax.flax.visualization", "wax.flax.examples", "wax.datasets")
HIDDEN = ("time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "time.localtime", "time.gmtime", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow", "os.urandom", "os.getpid", "os.getenv", "os.environ", "os.getcwd", "uuid.uuid1", "uuid.uuid4", "platform.", "socket.", "secrets.", "random.", "numpy.random.", "onp.random.", "builtins.id", "builtins.hash", "os.listdir", "glob.glob", "threading.get_ident", "locale.")
SEEDED = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.Generator", "random.Random", "numpy.random.MT19937")
LOGGING = ("logger", "logging", "log", "warnings", "print", "tqdm", "trange")


def hidden(p, m, f):
    bad, n = [], 0
    for x in ast.walk(f):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and not (isinstance(x._parent, ast.Attribute) and x._parent.value is x):
            if annotation(x):
                continue
            r = target(p, m, x)
            n += 1
            d = r[1] if r and r[0] == "ext" else None
            if d is None:
                continue
            if d in ("id", "hash"):
                d = "builtins." + d
            if not any(d == h or h.endswith(".") and d.startswith(h) or d.startswith(h + ".") for h in HIDDEN):
                continue
            c = x._parent
            if any(d == s or d.startswith(s + ".") for s in SEEDED):
                if isinstance(c, ast.Call) and c.func is x and not c.args and not c.keywords:
                    bad.append(f"{m.rel}:{x.lineno}: {d} without a seed")
                continue
            if told(x):
                continue
            bad.append(f"{m.rel}:{x.lineno}: {d}")
    return bad, n


def annotation(x):
    n = x
    while n is not None and not isinstance(n, ast.stmt):
        par = n._parent
        if isinstance(par, ast.arg) or isinstance(par, ast.AnnAssign) and par.annotation is n or isinstance(par, DEF) and par.returns is n:
            return True
        n = par
    return False


def told(x):
    """only used in a message"""
    n = x
    while n is not None and not isinstance(n, ast.stmt):
        if isinstance(n, ast.Call) and n.func is not x:
            d = dotted(n.func) or ""
            if d.split(".")[0] in LOGGING:
                return True
        n = n._parent
    return isinstance(n, (ast.Raise, ast.Assert))


# -- sets
SETCALLS = {"set", "frozenset"}
SETMETHODS = {"union", "intersection", "difference", "symmetric_difference"}
ORDERLESS = {"sorted", "set", "frozenset", "len", "sum", "min", "max", "any", "all", "bool", "isinstance", "repr", "str", "print", "Counter", "collections.Counter", "isdisjoint", "issubset", "issuperset", "update", "union", "intersection", "difference", "intersection_update", "difference_update", "symmetric_difference", "discard", "add"}


class Sets:
    """expressions of a function that are sets for sure"""

    def __init__(self, p, m, f):
        self.p, self.m, self.f = p, m, f
        self.names = {}
        stores = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        stores.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                stores.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                stores.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr):
                stores.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        stores.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.arg):
                stores.setdefault(n.arg, []).append(None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        stores.setdefault(x.id, []).append(None)
        self.stores = stores

    def is_set(self, e, depth=0):
        if depth > 6 or e is None:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            v = self.stores.get(e.id)
            return bool(v) and all(self.is_set(x, depth + 1) for x in v)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in SETCALLS and not shadowed(e.func, e.func.id):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in SETMETHODS | {"copy"}:
                return self.is_set(e.func.value, depth + 1)
            r = target(self.p, self.m, e.func) if dotted(e.func) else None
            if r and r[0] == "def":
                g = r[2]
                rets = [x.value for x in own_nodes(g) if isinstance(x, ast.Return)]
                if rets and depth < 3:
                    s = Sets(self.p, r[1], g)
                    return all(s.is_set(x, depth + 1) for x in rets)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, depth + 1) and self.is_set(e.orelse, depth + 1)
        return False

    def small(self, e):
        """the function compares the number of elements with one"""
        d = ast.dump(e)
        for n in ast.walk(self.f):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) and dotted(n.left.func) == "len" and n.left.args and ast.dump(n.left.args[0]) == d and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value in (1, 2):
                return True
        if isinstance(e, ast.Name):
            return any(self.small(x) for x in self.stores.get(e.id, []) if isinstance(x, ast.Name))
        return isinstance(e, ast.Set) and len(e.elts) == 1


def own_nodes(f):
    todo = list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, DEF + (ast.Lambda, ast.ClassDef)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def consumer(e):
    """the call an expression is the argument of"""
    c = e._parent
    if isinstance(c, ast.Call) and e in c.args:
        return c
    return None


def orderless_context(e):
    """the sequence e made from a set only feeds something that forgets the order"""
    n = e
    while True:
        c = n._parent
        if isinstance(c, ast.Call) and n in c.args:
            d = dotted(c.func) or (c.func.attr if isinstance(c.func, ast.Attribute) else "")
            if d in ORDERLESS or d.split(".")[-1] in ORDERLESS:
                return True
            if d in ("list", "tuple", "iter", "enumerate", "reversed", "map", "filter", "zip"):
                n = c
                continue
            return False
        if isinstance(c, ast.Compare):
            return all(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops)
        if isinstance(c, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return isinstance(c, (ast.SetComp, ast.DictComp)) or orderless_context(c)
        if isinstance(c, ast.comprehension):
            g = c._parent
            return isinstance(g, (ast.SetComp, ast.DictComp)) or orderless_context(g)
        if isinstance(c, ast.Expr):
            return True
        if isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name):
            # sorted afterwards: every use is orderless
            f = c
            while f is not None and not isinstance(f, DEF):
                f = f._parent
            if f is None:
                return False
            uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == c.targets[0].id and isinstance(x.ctx, ast.Load)]
            for u in uses:
                if isinstance(u._parent, ast.Attribute) and u._parent.attr == "sort":
                    return True
            return bool(uses) and all(orderless_context(u) for u in uses)
        return False


def order(p, m, f):
    S = Sets(p, m, f)
    bad, n = [], 0
    for e in ast.walk(f):
        if not isinstance(e, ast.expr) or not S.is_set(e):
            continue
        n += 1
        if S.small(e):
            continue
        c = e._parent
        while isinstance(c, ast.IfExp) and e is not c.test and not S.is_set(c) or isinstance(c, ast.NamedExpr):
            e, c = c, c._parent
        if isinstance(c, ast.Call) and e in c.args:
            d = dotted(c.func) or ""
            last = d.split(".")[-1] if d else (c.func.attr if isinstance(c.func, ast.Attribute) else "")
            if last in ("list", "tuple", "enumerate", "iter", "next", "reversed", "deque", "array", "asarray", "stack") and not orderless_context(c):
                bad.append((c, f"{last}() of a set"))
            elif last == "join" or last == "extend":
                bad.append((c, f"{last}() of a set"))
            elif last in ("zip", "map", "filter") and not orderless_context(c):
                bad.append((c, f"{last}() of a set"))
        elif isinstance(c, ast.Attribute) and c.value is e and c.attr == "pop" and isinstance(c._parent, ast.Call):
            bad.append((c, "pop() of a set"))
        elif isinstance(c, ast.Starred):
            bad.append((c, "unpacking of a set")) if not isinstance(c._parent, ast.Set) else None
        elif isinstance(c, ast.comprehension) and c.iter is e:
            g = c._parent
            if isinstance(g, (ast.ListComp, ast.GeneratorExp)) and not orderless_context(g):
                bad.append((c.iter, "a sequence made from a set"))
        elif isinstance(c, (ast.For, ast.AsyncFor)) and c.iter is e and ordered_body(c):
            bad.append((c, "a loop over a set that appends, yields or stops early"))
        elif isinstance(c, ast.AugAssign) and isinstance(c.op, ast.Add):
            bad.append((c, "a sequence extended by a set"))
        elif isinstance(c, ast.Assign) and isinstance(c.targets[0], (ast.Tuple, ast.List)) and len(c.targets[0].elts) > 1:
            bad.append((c, "unpacking of a set"))
    return bad, n


def ordered_body(loop):
    for n in ast.walk(loop):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Break, ast.Return)):
            v = getattr(n, "value", None)
            if isinstance(n, ast.Return) and (v is None or isinstance(v, ast.Constant)):
                continue
            if isinstance(n, ast.Break):
                continue
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "appendleft", "write", "insert"):
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.value, (ast.List, ast.Tuple, ast.JoinedStr)):
            return True
    return False


SAMPLE = '''
import time
def names(points):
    kinds = {p.kind for p in points}
    stamp = time.time()
    return ", ".join(kinds), stamp
'''


def res(bad, m):
    out = [b if isinstance(b, str) else f"{m.rel}:{b[0].lineno}: {b[1]}" for b in bad]
    return violated("; ".join(out[:3])) if out else holds()


@prop("W89")
def determinism(R):
    p = R.p
    R.rule("hidden-input", "no function of the computational packages reads a clock, an unseeded or global random generator, the environment, the process or an object's address")
    R.rule("set-order", "no function turns the iteration order of a set into an order of its results (list, tuple, join, unpacking, appending loop, pop), unless it is sorted or the set has one element")
    for m, q, f in outer_functions(p):
        w = f"{m.rel}:{f.lineno}:{q}"
        R.functions.add((m.rel, q))

        def hid():
            bad, n = hidden(p, m, f)
            R.callsites += n
            return res(bad, m)

        def orde():
            bad, n = order(p, m, f)
            R.callsites += n
            return res(bad, m)

        if not m.name.startswith(MEASURING):
            R.ob("hidden-input", f"{m.name}.{q}", hid, w)
        R.ob("set-order", f"{m.name}.{q}", orde, w)
    t = ast.parse(SAMPLE)
    s = Module("sample", "sample.py", t, SAMPLE, False)
    s.rel = "sample.py"
    for a in ast.walk(t):
        a._mod = s
        for b in ast.iter_child_nodes(a):
            b._parent = a
    t._parent = None
    g = next(x for x in t.body if isinstance(x, DEF))
    p.modules["sample"] = s
    R.control(lambda: res(hidden(p, s, g)[0], s))
    R.control(lambda: res(order(p, s, g)[0], s))
    del p.modules["sample"]
