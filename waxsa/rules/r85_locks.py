"""W85: lock discipline of the monitors that are shared among threads."""
import ast

from ..interp import GiveUp
from ..report import holds, violated
from . import prop
from .r80_refs import resolve

LOCKS = {"threading.Lock": False, "threading.RLock": True}
MUTATORS = {"append", "appendleft", "clear", "pop", "popleft", "update", "setdefault", "extend", "extendleft", "insert", "remove", "add", "discard", "popitem", "rotate", "sort", "reverse"}
DEF = (ast.FunctionDef, ast.AsyncFunctionDef)


def self_attr(n, me):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None


def root_attr(n, me):
    """the field of self at the root of an access path like self.f[k].g"""
    while True:
        f = self_attr(n, me)
        if f is not None:
            return f
        if isinstance(n, (ast.Attribute, ast.Subscript)):
            n = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault", "values", "items", "keys"):
            n = n.func.value
        else:
            return None


class LockedClass:
    def __init__(self, p, m, c, lock, reentrant):
        self.p, self.m, self.c, self.lock, self.reentrant = p, m, c, lock, reentrant
        self.methods = {f.name: f for f in c.body if isinstance(f, DEF)}
        self.access = []     # (field, kind, held, method, node)
        self.calls = []      # (callee, held, method, node)
        self.escapes = set()
        self.nested_calls = set()
        self.unclear = set()
        for f in self.methods.values():
            self.scan(f)

    def me(self, f):
        a = f.args.posonlyargs + f.args.args
        return a[0].arg if a else None

    def managers(self):
        """methods whose body yields (or returns the lock) with the lock held"""
        out = set()
        for n, f in self.methods.items():
            me = self.me(f)
            for w in ast.walk(f):
                if isinstance(w, ast.With) and any(self_attr(i.context_expr, me) == self.lock for i in w.items) and any(isinstance(y, ast.Yield) for y in ast.walk(w)):
                    out.add(n)
                if isinstance(w, ast.Return) and w.value is not None and self_attr(w.value, me) == self.lock:
                    out.add(n)
        return out

    def takes(self, e, me, alias):
        if self_attr(e, me) == self.lock or isinstance(e, ast.Name) and e.id in alias:
            return True
        if isinstance(e, ast.Call) and self_attr(e.func, me) in self.managers():
            return True
        if isinstance(e, ast.Attribute) and self_attr(e, me) in self.managers():
            return True
        return False

    def scan(self, f):
        me = self.me(f)
        if me is None:
            return
        odd = [d for d in f.decorator_list if not (isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"))]
        if odd:
            self.unclear.add(f.name)
        alias = {t.id for n in ast.walk(f) if isinstance(n, ast.Assign) and self_attr(n.value, me) == self.lock for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("acquire", "release") and (self_attr(n.func.value, me) == self.lock or isinstance(n.func.value, ast.Name) and n.func.value.id in alias):
                self.unclear.add(f.name)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "enter_context" and any(self_attr(a, me) == self.lock for a in n.args):
                self.unclear.add(f.name)

        def visit(n, held, nested):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                h = held
                for i in n.items:
                    visit(i.context_expr, h, nested)
                    h = h or self.takes(i.context_expr, me, alias)
                for s in n.body:
                    visit(s, h, nested)
                return
            if isinstance(n, DEF + (ast.Lambda,)) and n is not f:
                for x in ast.iter_child_nodes(n):
                    visit(x, held, True)
                return
            fld = self_attr(n, me)
            if fld is not None:
                par = n._parent
                if isinstance(par, ast.Call) and par.func is n and fld in self.methods:
                    (self.nested_calls.add(fld) if nested else self.calls.append((fld, held, f.name, n)))
                elif fld in self.methods:
                    self.escapes.add(fld)
                elif not nested:
                    self.access.append((fld, self.kind(n), held, f.name, n))
            for x in ast.iter_child_nodes(n):
                visit(x, held, nested)

        for s in f.body:
            visit(s, False, False)

    def kind(self, n):
        """aug | const | store | mutate | read"""
        par = n._parent
        if isinstance(n.ctx, ast.Store):
            if isinstance(par, ast.AugAssign):
                return "aug"
            v = getattr(par, "value", None)
            return "const" if isinstance(v, ast.Constant) else "store"
        x = n
        while isinstance(x._parent, (ast.Subscript, ast.Attribute)) and x._parent.value is x or isinstance(x._parent, ast.Call) and x._parent.func is x:
            y = x._parent
            if isinstance(y, ast.Subscript) and isinstance(y.ctx, (ast.Store, ast.Del)):
                return "mutate"
            if isinstance(y, ast.Attribute) and y.attr in MUTATORS and isinstance(y._parent, ast.Call):
                return "mutate"
            x = y
        return "read"

    def locked_only(self):
        """private methods entered with the lock held at every call"""
        cand = {n for n in self.methods if n.startswith("_") and not n.startswith("__") and n not in self.escapes}
        while True:
            keep = set()
            for n in cand:
                sites = [(h, m) for c, h, m, _ in self.calls if c == n and m != "__init__"]
                if sites and all(h or m in cand for h, m in sites):
                    keep.add(n)
            if keep == cand:
                return keep
            cand = keep

    def judge(self):
        lo = self.locked_only()
        doubt = self.unclear | self.escapes | self.nested_calls
        held = lambda a: a[2] or a[3] in lo or a[3] == "__init__"
        fields = {}
        for a in self.access:
            if a[3] != "__init__" and a[0] != self.lock:
                fields.setdefault(a[0], []).append(a)
        out = {}
        for f, acc in sorted(fields.items()):
            kinds = {a[1] for a in acc}
            if not any(a[2] or a[3] in lo for a in acc):
                continue
            if "mutate" in kinds:
                judged = acc
            elif "aug" in kinds:
                judged = [a for a in acc if a[1] == "aug"]
            else:
                continue
            bad = [a for a in judged if not held(a) and a[3] not in doubt]
            out[f] = (len(judged), bad)
        return out

    def acquires(self, name, seen=()):
        f = self.methods.get(name)
        if f is None or name in seen:
            return False
        me = self.me(f)
        alias = set()
        if any(isinstance(w, ast.With) and any(self.takes(i.context_expr, me, alias) for i in w.items) for w in ast.walk(f)):
            return True
        return any(self.acquires(c, seen + (name,)) for c, _, m, _ in self.calls if m == name)

    def deadlocks(self):
        lo = self.locked_only()
        if self.reentrant:
            return []
        return [(m, c, n) for c, h, m, n in self.calls if (h or m in lo) and self.acquires(c)]


def locked_classes(p, mods):
    for m in mods:
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef):
                continue
            for f in c.body:
                if not isinstance(f, DEF):
                    continue
                for n in ast.walk(f):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call):
                        r = resolve(p, m, n.value.func)
                        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                        a = f.args.args
                        if r and r[0] == "ext" and r[1] in LOCKS and a and self_attr(t, a[0].arg):
                            yield LockedClass(p, m, c, t.attr, LOCKS[r[1]])


def guarded(cl, fld):
    n, bad = cl.judge().get(fld, (0, []))
    if bad:
        _, k, _, meth, node = bad[0]
        return violated(f"{cl.c.name}.{meth} {'changes' if k != 'read' else 'reads'} self.{fld} without holding self.{cl.lock}, under which it is changed elsewhere ({cl.m.rel}:{node.lineno})")
    return holds(f"{n} accesses")


def reentry(cl):
    bad = cl.deadlocks()
    if bad:
        m, c, n = bad[0]
        return violated(f"{cl.c.name}.{m} holds the non-reentrant self.{cl.lock} and calls {c}, which takes it again ({cl.m.rel}:{n.lineno})")
    return holds()


def keeps_lock(found, node):
    if found:
        return holds()
    if node.bases or node.decorator_list or "lock" in ast.dump(node).lower():
        raise GiveUp(f"{node.name} may get its lock from elsewhere")
    return violated(f"{node.name} has no lock")


SAMPLE = '''
import threading
class Log:
    def __init__(self):
        self.lock = threading.Lock()
        self.rows = []
    def put(self, x):
        with self.lock:
            self.rows.append(x)
            self.size()
    def size(self):
        with self.lock:
            return len(self.rows)
    def last(self):
        return self.rows[-1]
'''
PUBLIC = ("wax.flax.debug.debugger.StreamingDebugger", "wax.flax.debug.profiler.StreamingProfiler", "wax.flax.debug.memory_tracker.MemoryTracker")


@prop("W85")
def locks(R):
    p = R.p
    R.rule("guarded", "a container field changed under the object's lock is touched only with the lock held (in the method, or in private methods only called with it held); counters are advanced only under it")
    R.rule("reentrant", "no method holding a non-reentrant lock calls a method that takes it again")
    R.rule("locked", "the monitors that protect their histories by a lock keep one")
    seen = set()
    for cl in locked_classes(p, p.modules.values()):
        seen.add(f"{cl.m.name}.{cl.c.name}")
        w = f"{cl.m.rel}:{cl.c.lineno}:{cl.c.name}"
        for fld, (n, bad) in cl.judge().items():
            R.ob("guarded", f"{cl.c.name}.{fld}", lambda: guarded(cl, fld), w)
            R.callsites += n
        R.ob("reentrant", cl.c.name, lambda: reentry(cl), w)
        for x in cl.methods:
            R.functions.add((cl.m.rel, f"{cl.c.name}.{x}"))
    for d in PUBLIC:
        m, node = p.need(d)
        R.ob("locked", d.split(".")[-1], lambda: keeps_lock(f"{m.name}.{node.name}" in seen, node), f"{m.rel}:{node.lineno}:{node.name}")
    from ..project import Module
    t = ast.parse(SAMPLE)
    for a in ast.walk(t):
        for b in ast.iter_child_nodes(a):
            b._parent = a
    c = next(x for x in t.body if isinstance(x, ast.ClassDef))
    s = Module("sample", "sample.py", t, SAMPLE, False)
    s.rel = "sample.py"
    lc = LockedClass(p, s, c, "lock", False)
    R.control(lambda: guarded(lc, "rows"))
    R.control(lambda: reentry(lc))
