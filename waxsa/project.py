"""Parsing and name resolution of the analysed tree (non-test modules of src/wax)."""
from __future__ import annotations

import ast
import os


class AnalysisBroken(Exception):
    """an anchor vanished or a file does not parse: error exit, never a pass"""


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg
        self.rel = None
        self.bind = {}  # name -> ('def',node) | ('class',node) | ('assign',expr) | ('import',dotted) | ('from',mod,name)
        self._index()

    def _resolve_from(self, node):
        if node.level:
            parts = self.name.split(".")
            if not self.is_pkg:
                parts = parts[:-1]
            if node.level > 1:
                parts = parts[: -(node.level - 1)]
            base = ".".join(parts)
            return base + ("." + node.module if node.module else "")
        return node.module

    def _index(self):
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[n.name] = ("def", n)
            elif isinstance(n, ast.ClassDef):
                self.bind[n.name] = ("class", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ("assign", n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                        for i, e in enumerate(t.elts):
                            self.bind[e.id] = ("unpack", n.value, i)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.bind[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                old = self.bind.get(n.target.id)
                if old and old[0] == "assign":
                    b = ast.BinOp(left=old[1], op=n.op, right=n.value)
                    ast.copy_location(b, n)
                    self.bind[n.target.id] = ("assign", b)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.bind[a.asname] = ("import", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                m = self._resolve_from(n)
                for a in n.names:
                    if a.name == "*":
                        self.bind.setdefault("*", []).append(m) if False else None
                        self.bind["*" + m] = ("star", m)
                    else:
                        self.bind[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(n, ast.Try):
                # handler bindings first so that the body wins
                for h in n.handlers:
                    self._scan(h.body)
                self._scan(n.body)
                self._scan(n.orelse)
                self._scan(n.finalbody)
            elif isinstance(n, ast.If):
                self._scan(n.orelse)
                self._scan(n.body)
            elif isinstance(n, ast.With):
                self._scan(n.body)


class Project:
    def __init__(self, root="/repo", overlay=None):
        self.root = root
        self.src = os.path.join(root, "src")
        self.modules = {}
        self.files = []
        base = os.path.join(self.src, "wax")
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py") or f.endswith("_test.py") or f.startswith("test_") or f == "conftest.py":
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                src = (overlay or {}).get(os.path.relpath(p, root)) or open(p, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{p}: {e}")
                m = Module(name, p, tree, src, is_pkg)
                m.rel = os.path.relpath(p, root)
                self.modules[name] = m
                self.files.append(m.rel)
        for m in self.modules.values():
            for parent in ast.walk(m.tree):
                for child in ast.iter_child_nodes(parent):
                    child._parent = parent
                    child._mod = m
            m.tree._mod = m
            m.tree._parent = None

    def add_stub(self, name):
        """make an external module known through a source model of it"""
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", name + ".py")
        src = open(p, encoding="utf-8").read()
        m = Module(name, p, ast.parse(src, p), src, False)
        m.rel = "stubs/" + name + ".py"
        for parent in ast.walk(m.tree):
            for child in ast.iter_child_nodes(parent):
                child._parent = parent
                child._mod = m
        m.tree._mod = m
        m.tree._parent = None
        self.modules[name] = m

    # -- resolution -------------------------------------------------------
    def lookup(self, modname, name, seen=None):
        """resolve a global to ('def',mod,node) ('class',mod,node) ('assign',mod,expr) ('mod',name) ('ext',dotted) or None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        b = m.bind.get(name)
        if b is None:
            if f"{modname}.{name}" in self.modules:
                return ("mod", f"{modname}.{name}")
            for k, v in m.bind.items():
                if k.startswith("*"):
                    r = self.lookup(v[1], name, seen)
                    if r is not None and not (r[0] == "ext"):
                        return r
            return None
        if b[0] in ("def", "class", "assign", "unpack"):
            return (b[0], m, *b[1:])
        if b[0] == "import":
            return ("mod", b[1]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            tgt, nm = b[1], b[2]
            if tgt in self.modules:
                r = self.lookup(tgt, nm, seen)
                if r is None and f"{tgt}.{nm}" in self.modules:
                    return ("mod", f"{tgt}.{nm}")
                return r
            return ("ext", f"{tgt}.{nm}")
        return None

    def find(self, dotted):
        """'wax.stream.Stream.merge' -> (module, node)"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                rest = parts[i:]
                if not rest:
                    return self.modules[mn], self.modules[mn].tree
                r = self.lookup(mn, rest[0])
                if r is None or r[0] not in ("def", "class"):
                    return None
                mod, node = r[1], r[2]
                for x in rest[1:]:
                    nxt = None
                    for c in node.body:
                        if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and c.name == x:
                            nxt = c
                    if nxt is None:
                        return None
                    node = nxt
                return mod, node
        return None

    def need(self, dotted):
        r = self.find(dotted)
        if r is None:
            raise AnalysisBroken(f"anchor {dotted} not found in the analysed tree")
        return r

    def functions(self):
        """all (module, qualname, node, class or None)"""
        for m in self.modules.values():
            yield from _functions(m, m.tree, "", None)


def _functions(m, node, prefix, cls):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + c.name
            yield m, q, c, cls
            yield from _functions(m, c, q + ".", None)
        elif isinstance(c, ast.ClassDef):
            yield from _functions(m, c, prefix + c.name + ".", c)
        elif isinstance(c, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.ExceptHandler)):
            yield from _functions(m, c, prefix, cls)


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        d = dotted(node.value)
        return None if d is None else d + "." + node.attr
    return None
