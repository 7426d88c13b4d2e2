"""W80: exported and referenced names exist; calls fit the signatures of what they call; Flax modules are rebuildable."""
import ast
import builtins
import symtable

from ..project import dotted
from ..report import holds, violated
from . import prop

FLAX = {"flax.linen.Module", "flax.linen.module.Module"}
HK = {"haiku.Module"}
NAMED = {"typing.NamedTuple"}
PLAIN = {"object", "abc.ABC", "typing.Generic", "typing.Protocol", "builtins.object", "enum.Enum", "contextlib.ContextDecorator", "Exception", "ValueError", "TypeError", "RuntimeError"}
TRANSPARENT = {"flax.linen.compact", "staticmethod", "classmethod", "abc.abstractmethod", "flax.linen.nowrap", "haiku.transparent", "typing.no_type_check", "contextlib.contextmanager", "property", "functools.cached_property", "functools.lru_cache", "functools.cache", "jax.jit"}
MODULE_ATTRS = {
    "flax": {"parent", "name", "scope", "variables", "path", "param", "variable", "sow", "perturb", "make_rng", "has_rng", "is_initializing", "is_mutable_collection", "has_variable", "get_variable", "put_variable", "apply", "init", "init_with_output", "bind", "unbind", "clone", "copy", "setup", "tabulate", "module_paths", "lazy_init", "reserve", "_state", "_id", "_try_setup", "_validate_setup", "_get_rng", "_initialization_allowed", "_call_wrapped_method"},
    "hk": {"name", "module_name", "params_dict", "state_dict", "_submodules"},
}
DUNDER = {a for a in dir(object)} | {"__dict__", "__module__", "__annotations__", "__name__", "__doc__", "_fields", "_replace", "_asdict", "__dataclass_fields__"}


def resolve(p, m, expr):
    """what a Name/Attribute chain at module level denotes: ('def'|'class'|'assign'|'unpack', mod, node) | ('mod', name) | ('ext', dotted) | None"""
    d = dotted(expr)
    if d is None:
        return None
    parts = d.split(".")
    r = p.lookup(m.name, parts[0])
    if r is None:
        return ("ext", d) if hasattr(builtins, parts[0]) else None
    for x in parts[1:]:
        if r is None:
            return None
        if r[0] == "ext":
            r = ("ext", r[1] + "." + x)
        elif r[0] == "mod":
            r = p.lookup(r[1], x)
        elif r[0] == "class":
            f = next((c for c in r[2].body if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == x), None)
            r = None if f is None else ("class" if isinstance(f, ast.ClassDef) else "method", r[1], f)
        else:
            return None
    return r


class Classes:
    """bases, kinds and members of the classes of the package"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def info(self, m, c):
        k = id(c)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {"kinds": set(), "known": False, "mro": [(m, c)]}
        kinds, known, mro = set(), True, [(m, c)]
        for b in c.bases:
            e = b.value if isinstance(b, ast.Subscript) else b
            r = resolve(self.p, m, e) if at_module_level(c) or dotted(e) else None
            if r is None:
                known = False
            elif r[0] == "class":
                i = self.info(r[1], r[2])
                kinds |= i["kinds"]
                known = known and i["known"]
                mro += [x for x in i["mro"] if x not in mro]
            elif r[0] == "ext":
                d = r[1]
                if d in FLAX or d == "flax.linen.Module":
                    kinds.add("flax")
                elif d in HK:
                    kinds.add("hk")
                elif d in NAMED:
                    kinds.add("named")
                elif d not in PLAIN and not d.endswith(("Exception", "Error")):
                    known = False
                elif d.endswith("Enum") or d.endswith(("Exception", "Error")):
                    kinds.add("special")
            else:
                known = False
        if c.keywords:
            known = known and all(k.arg == "metaclass" and dotted(k.value) in ("ABCMeta", "abc.ABCMeta") or k.arg == "kw_only" for k in c.keywords)
        for d in c.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            r = resolve(self.p, m, e)
            n = r[1] if r and r[0] == "ext" else None
            if n in ("dataclasses.dataclass", "flax.struct.dataclass"):
                kinds.add("data")
            elif n in ("pandas.api.extensions.register_dataframe_accessor", "pandas.api.extensions.register_series_accessor", "xarray.register_dataset_accessor", "xarray.register_dataarray_accessor"):
                pass
            else:
                known = False
        i = {"kinds": kinds, "known": known, "mro": mro}
        self.memo[k] = i
        return i

    def fields(self, m, c):
        """dataclass-like fields in order: [(name, has_default)] or None"""
        i = self.info(m, c)
        out = {}
        for mm, k in reversed(i["mro"]):
            for s in k.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    a = ast.unparse(s.annotation)
                    if "ClassVar" in a:
                        continue
                    if "InitVar" in a or "KW_ONLY" in a:
                        return None
                    v = s.value
                    default = v is not None
                    if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "field":
                        kw = {x.arg: x.value for x in v.keywords}
                        if isinstance(kw.get("init"), ast.Constant) and kw["init"].value is False:
                            continue
                        default = "default" in kw or "default_factory" in kw
                    out[s.target.id] = default
        return list(out.items())

    def method(self, m, c, name):
        for mm, k in self.info(m, c)["mro"]:
            for s in k.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                    return mm, s
        return None

    def members(self, m, c):
        """every attribute name the class is seen to define"""
        out = set()
        for mm, k in self.info(m, c)["mro"]:
            for n in ast.walk(k):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        out.add("*")
            for s in k.body:
                if isinstance(s, (ast.FunctionDef,)) and s.name in ("__getattr__", "__getattribute__", "__setattr__"):
                    out.add("*")
        return out


def at_module_level(n):
    return isinstance(n._parent, (ast.Module, ast.If, ast.Try, ast.ExceptHandler))


def signature(f, bound):
    """(positional names, number with default, keyword-only names, required keyword-only, *args?, **kw?)"""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    if bound:
        if not pos:
            return None
        pos = pos[1:]
        nd = min(nd, len(pos))
    req = {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos, nd, [k.arg for k in a.kwonlyargs], req, a.vararg is not None, a.kwarg is not None


def misfit(call, sig):
    """reason why the call can never be accepted by the signature, or None"""
    pos, nd, kwo, req, va, kw = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and not va:
        return f"{n} positional arguments given, at most {len(pos)} accepted"
    names = [k.arg for k in call.keywords if k.arg is not None]
    for k in names:
        if k not in pos and k not in kwo and not kw:
            return f"unexpected keyword argument {k!r}"
        if k in pos[:n] and not star:
            return f"argument {k!r} given twice"
    if not star and not dstar:
        missing = [x for x in pos[n: len(pos) - nd] if x not in names]
        missing += [x for x in req if x not in names]
        if missing:
            return f"missing argument {', '.join(repr(x) for x in missing)}"
    return None


def plain_decorators(p, m, f):
    for d in f.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        r = resolve(p, m, e)
        if not (r and r[0] == "ext" and r[1] in TRANSPARENT) or (isinstance(d, ast.Call)):
            return False
    return True


def kind_of(p, m, f):
    return {(resolve(p, m, d) or (0, 0))[1] for d in f.decorator_list if dotted(d)}


def local_names(fn):
    """names bound inside a function (not nested functions)"""
    out = set()
    a = fn.args
    out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out |= {x.arg for x in (a.vararg, a.kwarg) if x}
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return out


def shadowed(node, name):
    """the name is bound in a function enclosing the node"""
    n = node._parent
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            g = {x for s in ast.walk(n) if isinstance(s, ast.Global) for x in s.names}
            if name in local_names(n) and name not in g:
                return n
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if any(isinstance(t, ast.Name) and t.id == name for gen in n.generators for t in ast.walk(gen.target)):
                return n
        n = n._parent
    return None


def local_target(p, scope, name):
    """a name bound in a function exactly once, by an import or a def"""
    if not isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    a = scope.args
    if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}:
        return None
    found = []
    todo = list(scope.body)
    m = scope._mod
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name == name:
                found.append(("def", m, n))
            continue
        if isinstance(n, ast.ClassDef):
            if n.name == name:
                found.append(("class", m, n))
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            return None
        if isinstance(n, ast.ImportFrom):
            for x in n.names:
                if (x.asname or x.name) == name:
                    mod = m._resolve_from(n)
                    found.append(p.lookup(mod, x.name) if mod in p.modules else ("ext", f"{mod}.{x.name}"))
        if isinstance(n, ast.Import):
            for x in n.names:
                if (x.asname or x.name).split(".")[0] == name:
                    found.append(("ext", x.name) if x.name not in p.modules else ("mod", x.name))
        todo += list(ast.iter_child_nodes(n))
    return found[0] if len(found) == 1 else None


def target(p, m, expr):
    """definition a called expression denotes, seen from inside functions"""
    d = dotted(expr)
    if d is None:
        return None
    head = d.split(".")[0]
    s = shadowed(expr, head)
    if s is None:
        return resolve(p, m, expr)
    t = local_target(p, s, head)
    if "." in d:
        # a library imported inside the function
        if t is None or t[0] != "ext":
            return None
        full = t[1].split(".")[0] if t[1].split(".")[0] == head else t[1]
        return ("ext", full + d[len(head):])
    return t


def optional(n):
    """inside a try that handles ImportError (or anything)"""
    x = n
    while x is not None:
        q = x._parent
        if isinstance(q, ast.Try) and x in q.body:
            for h in q.handlers:
                if h.type is None or any(t in ast.unparse(h.type) for t in ("ImportError", "ModuleNotFoundError", "Exception", "AttributeError")):
                    return True
        x = q
    return False


def exports(p):
    out = []
    for m in p.modules.values():
        b = m.bind.get("__all__")
        if not b or b[0] != "assign":
            continue
        names = const_names(p, m, b[1])
        if names is None:
            continue
        bad = [n for n in names if p.lookup(m.name, n) is None and not attr_of_pkg(p, m, n)]
        out.append((m, names, bad))
    return out


def attr_of_pkg(p, m, n):
    return m.is_pkg and f"{m.name}.{n}" in p.modules


def const_names(p, m, e):
    try:
        v = ast.literal_eval(e)
        return [x for x in v if isinstance(x, str)]
    except (ValueError, TypeError):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = const_names(p, m, e.left), const_names(p, m, e.right)
            return None if a is None or b is None else a + b
        return None


def imports(p, m):
    n_ok, bad = 0, []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            mod = m._resolve_from(n)
            if not mod or mod.split(".")[0] != "wax":
                continue
            if optional(n):
                continue
            if mod not in p.modules:
                bad.append((n, f"module {mod} does not exist"))
                continue
            for a in n.names:
                if a.name == "*":
                    continue
                r = p.lookup(mod, a.name)
                if r is None:
                    bad.append((n, f"{mod} has no {a.name}"))
                else:
                    n_ok += 1
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "wax" and not optional(n):
                    if a.name not in p.modules and a.name.split(".")[-1] != "wax":
                        bad.append((n, f"module {a.name} does not exist"))
                    else:
                        n_ok += 1
    return n_ok, bad


def unbound(m):
    """global names referenced nowhere bound"""
    tab = symtable.symtable(m.src, m.path, "exec")
    glob = set(m.bind) | {s.get_name() for s in tab.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            glob |= set(n.names)
    if any(k.startswith("*") for k in m.bind):
        return 0, []
    known = glob | set(dir(builtins)) | {"__file__", "__name__", "__path__", "__doc__", "__package__", "__spec__", "__builtins__", "__class__", "__annotations__"}
    count, bad = 0, []

    def go(t):
        nonlocal count
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or (t.get_type() == "module" and not s.is_assigned())):
                count += 1
                if s.get_name() not in known:
                    bad.append((s.get_name(), t.get_name(), t.get_lineno()))
        for c in t.get_children():
            go(c)

    go(tab)
    return count, bad


def enclosing_class(n):
    """class of the method the node is in (directly), and the method"""
    f = None
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = n
            if isinstance(n._parent, ast.ClassDef):
                return n._parent, n
        n = n._parent
    return None, f


def calls(p, m, C):
    ok, bad = 0, []
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call):
            continue
        sig = None
        name = dotted(n.func)
        if name is None or optional_type(n):
            continue
        if name.startswith("self.") and name.count(".") == 1:
            c, f = enclosing_class(n)
            if c is None or not f.args.args or f.args.args[0].arg != "self" or "staticmethod" in kind_of(p, m, f):
                continue
            if name.split(".")[1] in assigned_attrs(C, m, c):
                continue
            r = C.method(m, c, name.split(".")[1])
            if r is None or not plain_decorators(p, r[0], r[1]):
                continue
            k = kind_of(p, r[0], r[1])
            if "property" in k or "functools.cached_property" in k:
                continue
            sig = signature(r[1], "staticmethod" not in k)
        else:
            r = target(p, m, n.func)
            if r is None:
                continue
            if r[0] == "def" and plain_decorators(p, r[1], r[2]):
                sig = signature(r[2], False)
            elif r[0] == "class":
                sig = constructor(p, C, r[1], r[2])
        if sig is None:
            continue
        why = misfit(n, sig)
        if why:
            bad.append((n, name, why))
        else:
            ok += 1
    return ok, bad


def optional_type(n):
    """the call is inside a try that handles TypeError"""
    x = n
    while x is not None:
        q = x._parent
        if isinstance(q, ast.Try) and x in q.body:
            for h in q.handlers:
                if h.type is None or any(t in ast.unparse(h.type) for t in ("TypeError", "Exception")):
                    return True
        if isinstance(q, ast.With) and any("raises" in ast.unparse(i.context_expr) for i in q.items):
            return True
        x = q
    return False


def assigned_attrs(C, m, c):
    out = set()
    for mm, k in C.info(m, c)["mro"]:
        for n in ast.walk(k):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
        for s in k.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(t, ast.Name):
                        out.add(t.id)
    return out


def constructor(p, C, m, c):
    i = C.info(m, c)
    if not i["known"] or "special" in i["kinds"] or C.method(m, c, "__new__") or any(k.keywords for _, k in i["mro"]):
        return None
    f = C.method(m, c, "__init__")
    if f:
        return signature(f[1], True) if not f[1].decorator_list else None
    if i["kinds"] & {"flax", "data", "named"}:
        if len(i["kinds"]) > 1:
            return None
        fs = C.fields(m, c)
        if fs is None:
            return None
        if "flax" in i["kinds"]:
            pos = [x for x, _ in fs]
            nd = 0
            for _, d in reversed(fs):
                if not d:
                    break
                nd += 1
            return pos + [x for x in ("parent", "name") if x not in pos], nd + 2, [], set(), False, False
        if any(d and not e for (_, d), (_, e) in zip(fs, fs[1:])):
            return None
        return [x for x, _ in fs], sum(d for _, d in fs), [], set(), False, False
    if "hk" in i["kinds"]:
        return ["name"], 1, [], set(), False, False
    return [], 0, [], set(), False, False


def attributes(p, m, C):
    """self.x where x is defined nowhere in the class or its (all known) bases"""
    ok, bad = 0, []
    for c in ast.walk(m.tree):
        if not isinstance(c, ast.ClassDef) or not at_module_level(c):
            continue
        i = C.info(m, c)
        if not i["known"] or "special" in i["kinds"]:
            continue
        mem = C.members(m, c) | DUNDER
        for k in i["kinds"]:
            mem |= MODULE_ATTRS.get(k, set())
        if "*" in mem:
            continue
        subs = [x for mm in p.modules.values() for x in ast.walk(mm.tree) if isinstance(x, ast.ClassDef) and x is not c and (m, c) in C.info(mm, x)["mro"]]
        for x in subs:
            mem |= C.members(x._mod, x)
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self":
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    inner = enclosing_class(n)[0]
                    if inner is not c or guarded_attr(n):
                        continue
                    if n.attr in mem:
                        ok += 1
                    else:
                        bad.append((n, c.name, n.attr))
    return ok, bad


def guarded_attr(n):
    x = n
    while x is not None:
        q = x._parent
        if isinstance(q, ast.Try) and x in q.body and any(h.type is None or any(t in ast.unparse(h.type) for t in ("AttributeError", "Exception")) for h in q.handlers):
            return True
        if isinstance(q, (ast.If, ast.IfExp)) and "hasattr" in ast.unparse(q.test):
            return True
        x = q
    return False


def constructors(p, C):
    """Flax modules are rebuilt from their fields (clone, bind, transforms): a hand-written __init__ has to take parent and name"""
    ok, bad = 0, []
    for m in p.modules.values():
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef):
                continue
            if "flax" not in C.info(m, c)["kinds"]:
                continue
            f = next((s for s in c.body if isinstance(s, ast.FunctionDef) and s.name == "__init__"), None)
            if f is not None:
                pos, _, kwo, _, _, kw = signature(f, True)
                if not kw and not {"parent", "name"} <= set(pos) | set(kwo):
                    bad.append((m, f, c.name))
                    continue
            ok += 1
    return ok, bad


@prop("W80")
def references(R):
    p = R.p
    C = Classes(p)
    R.rule("exports", "every name in __all__ of a module is bound there (directly, by a resolvable import, or as a submodule)")
    R.rule("imports", "an import of the package from itself names an existing module and an existing name")
    R.rule("names", "a name read in a function or module is bound in an enclosing scope, the module, or builtins")
    R.rule("calls", "a call of a function, method (through self) or class of the package fits its parameters: number, names, none missing, none twice")
    R.rule("attributes", "an attribute read through self is defined somewhere in the class, its bases or its subclasses")
    R.rule("rebuildable", "a Flax module class is built from its fields, or its own __init__ accepts parent and name (Flax clones modules with both)")
    for m, names, bad in exports(p):
        R.ob("exports", m.name, lambda: violated(f"__all__ promises {', '.join(bad)} but the module does not define it", f"{m.rel}:1") if bad else holds(f"{len(names)} names", m.rel))
        R.cases += len(names)
    for m in p.modules.values():
        n, bad = imports(p, m)
        R.cases += n
        R.ob("imports", m.name, lambda: violated(bad[0][1], f"{m.rel}:{bad[0][0].lineno}") if bad else holds(f"{n} imports", m.rel))
        n, bad2 = unbound(m)
        R.cases += n
        R.ob("names", m.name, lambda: violated(f"name {bad2[0][0]!r} used in {bad2[0][1]} is not defined", f"{m.rel}:{bad2[0][2]}") if bad2 else holds(f"{n} names", m.rel))
        n, bad3 = calls(p, m, C)
        R.callsites += n
        R.ob("calls", m.name, lambda: violated(f"call of {bad3[0][1]}: {bad3[0][2]}", f"{m.rel}:{bad3[0][0].lineno}") if bad3 else holds(f"{n} calls", m.rel))
        n, bad4 = attributes(p, m, C)
        R.cases += n
        R.ob("attributes", m.name, lambda: violated(f"{bad4[0][1]} reads self.{bad4[0][2]}, which it never defines", f"{m.rel}:{bad4[0][0].lineno}") if bad4 else holds(f"{n} reads", m.rel))
    n, bad5 = constructors(p, C)
    R.ob("rebuildable", "wax.flax", lambda: violated(f"{bad5[0][2]}.__init__ does not accept parent and name", f"{bad5[0][0].rel}:{bad5[0][1].lineno}") if bad5 else holds(f"{n} classes"))
    for _, q, f, _ in p.functions():
        R.functions.add((getattr(getattr(f, "_mod", None), "rel", "?"), q))
    sample = ast.parse("f(1, b=2)").body[0].value
    R.control(lambda: violated("x") if misfit(sample, (["a"], 0, [], set(), False, False)) else holds())
    R.control(lambda: violated("x") if misfit(ast.parse("f()").body[0].value, (["a"], 0, [], set(), False, False)) else holds())
