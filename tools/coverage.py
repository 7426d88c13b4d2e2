"""Functions of the package no behavioural check has interpreted (from the evidence of the last run; W80/W85 excluded)."""
import ast, glob, json, os
done = set()
for f in glob.glob('/verif/evidence/W*.json'):
    d = json.load(open(f))
    if d['property'] in ('W80', 'W85', 'W88', 'W89'):
        continue
    done |= set(d['coverage'].get('functions_analysed', []))
names = {(x.split(':')[0], x.split(':')[1].split('.')[-1]) for x in done}
for dp, _, fs in sorted(os.walk('/repo/src/wax')):
    for fn in sorted(fs):
        if not fn.endswith('.py') or fn.endswith('_test.py'):
            continue
        p = os.path.join(dp, fn); rel = os.path.relpath(p, '/repo')
        out = []
        def walk(n, q):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.FunctionDef):
                    if f"{rel}:{'.'.join(q + [c.name])}" not in done and not (q and (rel, c.name) in names):
                        out.append((".".join(q + [c.name]), c.end_lineno - c.lineno + 1))
                    walk(c, q + [c.name])
                elif isinstance(c, ast.ClassDef):
                    walk(c, q + [c.name])
                else:
                    walk(c, q)
        walk(ast.parse(open(p).read()), [])
        if out:
            print(rel, " ".join(f"{a}:{b}" for a, b in out))
