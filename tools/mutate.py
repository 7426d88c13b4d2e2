"""Development aid: apply syntactic mutations to one source file and report which ones a check does not flag.

usage: python3 tools/mutate.py src/wax/modules/ewma.py W20 [W22 ...]   (nothing of the repository is executed)"""
import ast, copy, io, contextlib, multiprocessing, os, sys, threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    for idx, n in enumerate(nodes):
        def emit(f, label):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[idx]
            f(m, t)
            ast.fix_missing_locations(t)
            try:
                return (f"{getattr(n, 'lineno', 0)}: {label}", ast.unparse(t))
            except Exception:
                return None

        out = []
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(emit(lambda m, t: m.ops.__setitem__(0, CMP[type(m.ops[0])]()), f"cmp {ast.unparse(n)}"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def f(m, t):
                m.op = BIN[type(m.op)]()
            out.append(emit(f, f"bin {ast.unparse(n)}"))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m, t):
                m.value = not m.value
            out.append(emit(f, f"bool {n.value}"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            def f(m, t):
                m.value = m.value + 1
            out.append(emit(f, f"const {n.value}"))
        if isinstance(n, ast.If):
            def f(m, t):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            out.append(emit(f, f"negate if {ast.unparse(n.test)}"))
        if isinstance(n, ast.IfExp):
            def f(m, t):
                m.body, m.orelse = m.orelse, m.body
            out.append(emit(f, f"swap ifexp {ast.unparse(n)[:60]}"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not, ast.USub)):
            def f(m, t):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else m.op
                if not isinstance(m.op, ast.UAdd):
                    o = m.operand
                    m.op, m.operand = type(m.op)(), ast.UnaryOp(type(m.op)(), o)
            out.append(emit(f, f"drop unary {ast.unparse(n)[:60]}"))
        if isinstance(n, ast.Call):
            for ki, k in enumerate(n.keywords):
                out.append(emit(lambda m, t, ki=ki: m.keywords.pop(ki), f"drop kw {ast.unparse(k)} of {ast.unparse(n)[:50]}"))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def f(m, t):
                    m.args[-1], m.args[-2] = m.args[-2], m.args[-1]
                out.append(emit(f, f"swap args {ast.unparse(n)[:70]}"))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for si, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.AnnAssign, ast.Assert, ast.Raise, ast.Return)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def f(m, t, fld=fld, si=si):
                            getattr(m, fld)[si] = ast.Pass()
                        o = emit(f, f"delete {ast.unparse(s)[:70]}")
                        if o:
                            out.append((f"{s.lineno}: delete {ast.unparse(s)[:70]}", o[1]))
        for o in out:
            if o:
                yield o


def name_mutants(src):
    """second set: another variable of the function, a dropped operand of and/or, swapped and/or, None defaults"""
    import random
    rnd = random.Random(1)
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    index = {id(n): i for i, n in enumerate(nodes)}

    def emit(n, f, label):
        t = copy.deepcopy(tree)
        f(list(ast.walk(t))[index[id(n)]])
        ast.fix_missing_locations(t)
        return f"{getattr(n, 'lineno', 0)}: {label}", ast.unparse(t)

    done = set()
    for fn in nodes:
        if not isinstance(fn, ast.FunctionDef):
            continue
        local = sorted({a.arg for a in fn.args.args + fn.args.kwonlyargs} | {m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
        fields = sorted({m.attr for m in ast.walk(fn) if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == "self"})
        for n in ast.walk(fn):
            if id(n) in done:
                continue
            done.add(id(n))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id != "self":
                alt = [x for x in local if x not in (n.id, "self")]
                if alt:
                    w = rnd.choice(alt)
                    yield emit(n, lambda m: setattr(m, "id", w), f"name {n.id} -> {w}")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                alt = [x for x in fields if x != n.attr]
                if alt:
                    w = rnd.choice(alt)
                    yield emit(n, lambda m: setattr(m, "attr", w), f"field {n.attr} -> {w}")
            if isinstance(n, ast.BoolOp):
                yield emit(n, lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()), f"and/or {ast.unparse(n)[:70]}")
                for i in range(len(n.values)):
                    yield emit(n, lambda m: m.values.pop(i), f"drop operand {i} of {ast.unparse(n)[:70]}")


def job(a):
    label, path, src, ids = a
    res = {}

    def run():
        from waxsa.report import run_check

        for i in ids:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                try:
                    res[i] = run_check(i, "quick", "/repo", overlay={path: src})
                except BaseException as e:
                    res[i] = f"EXC {type(e).__name__} {e}"
            if res[i] == 0 and " 0 undecided" not in buf.getvalue():
                res[i] = "undecided"

    threading.stack_size(256 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return label, res


if __name__ == "__main__":
    path, ids = sys.argv[1], sys.argv[2:]
    src = open(os.path.join("/repo", path)).read()
    ms = list((name_mutants if os.environ.get("MUT") == "names" else mutants)(src))
    with multiprocessing.Pool(8) as p:
        n = caught = 0
        for label, res in p.imap(job, [(l, path, s, ids) for l, s in ms]):
            n += 1
            if any(v == 1 for v in res.values()):
                caught += 1
            else:
                print("MISS", label, {k: v for k, v in res.items()})
        print(f"{caught}/{n} flagged")
