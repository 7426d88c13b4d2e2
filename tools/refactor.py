#!/usr/bin/env python3
"""usage: refactor.py DEST TRANSFORM [FILE...]: apply a behaviour-preserving rewriting to every module of the copy DEST
(used while developing, to see that the checks stay quiet; no check reads it)"""
import ast, copy, sys
from pathlib import Path


def names_loaded(e):
    return [n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]


def has(e, *types):
    return any(isinstance(n, types) for n in ast.walk(e))


SCOPED = (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)


def local_names(f):
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out |= {x.arg for x in (a.vararg, a.kwarg) if x}

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                out.update((x.asname or x.name).split(".")[0] for x in c.names)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            walk(c)

    walk(f)
    return out


class Body(ast.NodeTransformer):
    """visits statement lists; stmts(list, function stack) -> list"""

    def __init__(self):
        self.fs = []
        self.n = 0

    def fresh(self, p="_v"):
        self.n += 1
        return f"{p}{self.n}"

    def block(self, b):
        out = []
        for s in b:
            s = self.visit(s)
            out += self.stmt(s)
        return out

    def stmt(self, s):
        return [s]

    def visit_FunctionDef(self, n):
        self.fs.append(n)
        doc = []
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            doc, b = b[:1], b[1:]
        n.body = doc + self.post(n, self.block(b)) or [ast.Pass()]
        self.fs.pop()
        return n

    def post(self, f, b):
        return b

    def generic_visit(self, n):
        if isinstance(n, ast.ClassDef):
            fs, self.fs = self.fs, []
            n.body = [self.visit(x) for x in n.body]
            self.fs = fs
            return n
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b) if self.fs else [self.visit(x) for x in b])
        for h in getattr(n, "handlers", []) or []:
            h.body = self.block(h.body) if self.fs else h.body
        return n


class ReturnTemp(Body):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = self.fresh("_result")
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
        return [s]


class IfExp(Body):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
        return [s]


class Invert(Body):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return [ast.If(t, s.orelse, s.body)]
        return [s]


class Early(Body):
    """if c: return A; rest  ->  if c: return A else: rest"""

    def block(self, b):
        b = super().block(b)
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.again(b[i + 1:]))]
        return b

    def again(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.again(b[i + 1:]))]
        return b


class Helper(Body):
    """expressions of assignments and returns move to module-level functions"""

    def __init__(self):
        super().__init__()
        self.helpers = []

    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None and not has(s.value, *SCOPED) and isinstance(s.value, (ast.BinOp, ast.Call, ast.Compare, ast.BoolOp)) and len(self.fs) == 1:
            if any(isinstance(n, ast.Name) and n.id in ("super", "locals", "globals", "__class__") for n in ast.walk(s.value)):
                return [s]
            if any(isinstance(d, (ast.Nonlocal, ast.Global)) for d in ast.walk(self.fs[-1])):
                return [s]
            if any(isinstance(n, ast.Attribute) and n.attr.startswith("__") for n in ast.walk(s.value)):
                return [s]
            loc = local_names(self.fs[-1])
            ps = [x for x in dict.fromkeys(names_loaded(s.value)) if x in loc]
            h = self.fresh("_helper")
            a = ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[])
            self.helpers.append(ast.FunctionDef(h, a, [ast.Return(s.value)], [], None, type_params=[]))
            s = copy.copy(s)
            s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])
        return [s]

    def visit_Module(self, m):
        m.body = [self.visit(x) for x in m.body]
        i = 0
        for j, s in enumerate(m.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                i = j + 1
        m.body[i:i] = self.helpers
        return m


class Comp(Body):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            # comprehension variables must not clash
            if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                return [s]
            bound = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            if self.fs and bound & (local_names(self.fs[-1])):
                return [s]
            acc = self.fresh("_acc")
            N = lambda: ast.Name(acc, ast.Load())
            if isinstance(s.value, ast.ListComp):
                ini = ast.List([], ast.Load())
                body = ast.Expr(ast.Call(ast.Attribute(N(), "append", ast.Load()), [s.value.elt], []))
            else:
                ini = ast.Dict([], [])
                body = ast.Assign([ast.Subscript(N(), s.value.key, ast.Store())], s.value.value)
            b = [body]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            if has(s.value, ast.Lambda):
                return [s]
            s = copy.copy(s)
            s.value = N()
            return [ast.Assign([ast.Name(acc, ast.Store())], ini), ast.For(g.target, g.iter, b, []), s]
        return [s]


class While(Body):
    """for i in range(n) -> while"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not has(ast.Module(s.body, []), ast.Continue, ast.Lambda, ast.FunctionDef):
            a = s.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            i, h = self.fresh("_i"), self.fresh("_n")
            N = lambda x: ast.Name(x, ast.Load())
            return [ast.Assign([ast.Name(i, ast.Store())], lo), ast.Assign([ast.Name(h, ast.Store())], hi),
                    ast.While(ast.Compare(N(i), [ast.Lt()], [N(h)]), [ast.Assign([s.target], N(i)), *s.body, ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]


class Lam(Body):
    """lambdas of simple statements become local functions"""

    def stmt(self, s):
        if not isinstance(s, (ast.Return, ast.Assign, ast.Expr)) or s.value is None or not self.fs:
            return [s]
        pre, me = [], self

        class T(ast.NodeTransformer):
            def visit_Lambda(self, n):
                f = me.fresh("_fn")
                pre.append(ast.FunctionDef(f, n.args, [ast.Return(n.body)], [], None, type_params=[]))
                return ast.Name(f, ast.Load())

            def stop(self, n):
                return n

            visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = stop

        s.value = T().visit(s.value)
        return pre + [s]


class Swap(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, n.op, n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class AndSplit(Body):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b
        return [s]


class Aug(Body):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and not isinstance(s.value, (ast.List, ast.ListComp)):
            if isinstance(s.target, ast.Attribute) and not isinstance(s.target.value, ast.Name):
                return [s]
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]
        return [s]


class Kw(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords) and not has(n, ast.Await):
            n.keywords = n.keywords[::-1]
        return n


class Locks(Body):
    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and "lock" in ast.unparse(s.items[0].context_expr).lower():
            e = s.items[0].context_expr
            c = lambda n: ast.Expr(ast.Call(ast.Attribute(e, n, ast.Load()), [], []))
            return [c("acquire"), ast.Try(s.body, [], [], [c("release")])]
        return [s]


class DictCall(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            import keyword
            if not any(keyword.iskeyword(k.value) for k in n.keys):
                return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class Noop(Body):
    def block(self, b):
        return [x for s in super().block(b) for x in (s, ast.Expr(ast.Constant(0)))] if not any(isinstance(s, (ast.Import,)) for s in b) else super().block(b)


class Wrap(ast.NodeTransformer):
    """methods and functions delegate to an implementation of the same signature"""

    def __init__(self):
        self.inclass = False

    def rewrite(self, body, meth):
        out = []
        for f in body:
            if isinstance(f, ast.ClassDef) and not meth:
                f.body = self.rewrite(f.body, True)
                out.append(f)
                continue
            if not isinstance(f, ast.FunctionDef) or (f.decorator_list and [ast.unparse(d) for d in f.decorator_list] != ["nn.compact"]) or f.name in ("__init__", "setup", "__new__", "__post_init__", "__init_subclass__") or has(f, ast.Yield, ast.YieldFrom, ast.Nonlocal) or (meth and not f.args.args) or any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(f)) or any(isinstance(n, ast.Name) and n.id.startswith("__") for n in ast.walk(f)):
                out.append(f)
                continue
            a = f.args
            impl = f"_{f.name.strip('_')}_impl"
            g = copy.deepcopy(f)
            g.name, g.decorator_list = impl, []
            g.args.defaults, g.args.kw_defaults = [], [None] * len(a.kwonlyargs)
            N = lambda x: ast.Name(x, ast.Load())
            args = [N(x.arg) for x in a.posonlyargs + a.args]
            fn = N(impl)
            if meth:
                fn, args = ast.Attribute(args[0], impl, ast.Load()), args[1:]
            if a.vararg:
                args.append(ast.Starred(N(a.vararg.arg), ast.Load()))
            kws = [ast.keyword(x.arg, N(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else [])
            doc = [s for s in f.body[:1] if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)]
            f.body = doc + [ast.Return(ast.Call(fn, args, kws))]
            out += [g, f]
        return out

    def visit_Module(self, m):
        m.body = self.rewrite(m.body, False)
        return m


class Rename(Body):
    """local variables get other names"""

    def post(self, f, b):
        if len(self.fs) != 1 or any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f)) or any(isinstance(n, ast.Name) and n.id in ("locals",) for n in ast.walk(f)):
            return b
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        # names also bound by inner functions or comprehensions are left alone
        inner = set()
        for s in b:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    g = n.args
                    inner |= {x.arg for x in g.posonlyargs + g.args + g.kwonlyargs} | {x.arg for x in (g.vararg, g.kwarg) if x}
                    if isinstance(n, ast.FunctionDef):
                        inner.add(n.name)
                        inner |= local_names(n)
                if isinstance(n, ast.comprehension):
                    inner |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    inner |= {(x.asname or x.name).split(".")[0] for x in n.names}
                if isinstance(n, ast.ExceptHandler) and n.name:
                    inner.add(n.name)
                if isinstance(n, ast.ClassDef):
                    inner.add(n.name)
        loc = {n.id for s in b for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - inner
        ren = {x: f"{x}_r" for x in loc}
        for s in b:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = ren[n.id]
        return b


T = {"return": ReturnTemp, "ifexp": IfExp, "invert": Invert, "early": Early, "helper": Helper, "comp": Comp, "while": While, "lambda": Lam, "swap": Swap, "andsplit": AndSplit, "aug": Aug, "kw": Kw, "locks": Locks, "dict": DictCall, "noop": Noop, "wrap": Wrap, "rename": Rename}

if __name__ == "__main__":
    dest, t = sys.argv[1:3]
    for p in sorted(Path(dest, "src/wax").rglob("*.py")):
        if sys.argv[3:] and not any(str(p).endswith(x) for x in sys.argv[3:]) or "_test" in p.name or "/tests/" in str(p):
            continue
        tree = ast.parse(p.read_text())
        if t in ("rename",):
            sys.setrecursionlimit(10000)
        fut = [s for s in tree.body if isinstance(s, ast.ImportFrom) and s.module == "__future__"]
        new = T[t]().visit(tree)
        ast.fix_missing_locations(new)
        p.write_text(ast.unparse(new) + "\n")
