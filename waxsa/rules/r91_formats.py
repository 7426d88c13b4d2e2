"""W91: every rendering of a computation graph shows the same nodes, labels, nesting and edges."""
import re
from collections import Counter
from html.parser import HTMLParser

from . import prop
from ..interp import AbsRaise, GiveUp, NONE
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r46_patterns import lift
from .r81_monitor import A, Lab
from .r86_viz import CG, NG, TREES, pair

# id, name, type, input shapes, parameters
NODES = [("n_a", "first", "EWMA", {"x": (3, 4)}, {"alpha": Fraction(1, 4), "adjust": 3, "name_": "q"}), ("n_b", "second_with_a_rather_long_name", "BufferOfThings", {}, {"maxlen": 7, "mode": "ring"}),
         ("n_c", "third", "third", {"u": (5,), "v": (6, 2)}, {}), ("n_d", "<lambda>", "Function", {}, {}), ("n_e", "Dense_0", "Dense", {}, {})]
EDGES = [("n_a", "n_b", "module"), ("n_b", "n_c", ""), ("n_a", "n_c", "skip"), ("n_d", "n_a", ""), ("n_d", "n_e", "soft")]
STYLES = {("n_a", "n_c"): {"color": "#FF0001"}, ("n_d", "n_e"): {"style": "dashed"}}


JV = "wax.flax.visualization.jupyter_viz."
OLD = "what the file held before"


def visible(html):
    """text of a page outside of scripts, styles and head"""
    out, skip = [], []

    class P(HTMLParser):
        def handle_starttag(self, t, a):
            if t in ("script", "style", "head"):
                skip.append(t)
            if t in ("br", "p", "div", "li", "tr", "h1", "h2", "h3"):
                out.append("\n")

        def handle_endtag(self, t):
            if skip and skip[-1] == t:
                skip.pop()
            if t in ("div", "p", "li", "tr", "h1", "h2", "h3"):
                out.append("\n")

        def handle_data(self, d):
            if not skip:
                out.append(d)

    p = P(convert_charrefs=True)
    p.feed(html)
    p.close()
    return "".join(out)


def files(L):
    """open(..., "w") of a model file system; returns {path: text}"""
    fs = {}

    def opened(I, a, k, s):
        path = I.pyval(I.term(a[0], s))
        mode = I.pyval(I.term(a[1], s)) if len(a) > 1 else I.pyval(I.term(k["mode"], s)) if "mode" in k else "r"
        if "w" in mode:
            fs[path] = ""
        elif "a" in mode:
            fs.setdefault(path, OLD)

        def write(I, a, k, s):
            fs[path] += I.pyval(I.term(a[0], s))
            return const(0)
        return Py("file", lambda *a: NONE, {"write": Py("write", write), "close": Py("close", lambda *a: NONE), "__enter__": NONE})
    L.I.handlers["builtins.open"] = L.I.handlers["open"] = opened
    return fs


def text_of(L, v):
    try:
        t = L.I.pyval(L.I.term(v, L.st))
    except KeyError:
        raise GiveUp("the rendered text is not a constant: " + show(L.I.term(v, L.st))[-300:])
    if not isinstance(t, str):
        raise GiveUp("the rendering is not a text")
    return t


def built(R, fmt, opts=(), nodes=NODES, edges=EDGES):
    L = Lab(R)
    g = L.new(CG + "ComputationGraphRenderer", fmt, **dict(opts))
    for i, n, t, sh, ps in nodes:
        L.do(g, "add_node", L.new(CG + "PipelineNode", i, n, t, input_shapes={k: tuple(v) for k, v in sh.items()}, parameters=dict(ps)))
    for s, t, l in edges:
        L.do(g, "add_edge", L.new(CG + "PipelineEdge", s, t, l, **STYLES.get((s, t), {})))
    return L, g


def same_count(what, got, want):
    """multisets"""
    g, w = Counter(got), Counter(want)
    for x in (w - g):
        return violated(f"{what} {x!r} is not shown" if not g[x] else f"{what} {x!r} is shown {g[x]} times, required {w[x]}")
    for x in (g - w):
        return violated(f"{what} {x!r} is shown but does not exist" if not w[x] else f"{what} {x!r} is shown {g[x]} times, required {w[x]}")
    return holds()


def arrows(txt, ids):
    q = "|".join(map(re.escape, sorted(ids, key=len, reverse=True)))
    return [(m[1], m[2]) for m in re.finditer(rf'(?<![\w.])"?({q})"?\s*(?:→|-+>|⟶|➔|=>)\s*"?({q})"?(?![\w.])', txt)]


def dot_nodes(txt):
    """[(id, label)] of the node statements"""
    out = []
    for m in re.finditer(r'^\s*"?([\w.<>]+)"?\s*\[(.*)\]\s*;?\s*$', txt, re.M):
        if m[1] in ("node", "edge", "graph"):
            continue
        lab = re.search(r'label\s*=\s*"([^"]*)"', m[2])
        out.append((m[1], lab[1].replace("\\n", "\n") if lab else m[1]))
    return out


def shows(block, node, shapes, params, maxlen=None, exact_name=True):
    """a node's part of a text shows its name, type and (exactly when included) its shapes and parameters"""
    i, n, t, sh, ps = node
    name = n if maxlen is None or len(n) <= maxlen else n[:maxlen]
    if name not in block:
        return violated(f"the name {name!r} of node {i} is not shown: {block!r}")
    if maxlen is not None and len(n) > maxlen and n[: maxlen + 1] in block:
        return violated(f"the name of node {i} is longer than {maxlen} characters: {block!r}")
    if maxlen is not None and len(n) <= maxlen and re.search(re.escape(n) + r"(\.\.|…)", block):
        return violated(f"the name of node {i} is marked as cut although it is not longer than {maxlen}: {block!r}")
    if t != n and t not in block.replace(name, "", 1):
        return violated(f"the type {t!r} of node {i} is not shown: {block!r}")
    for k, v in sh.items():
        hit = re.search(rf"\b{k}\b\W*" + r"\D+".join(map(str, v)) + r"(?!\d)", block)
        if bool(hit) != shapes:
            return violated(f"the shape of input {k!r} of node {i} is {'not ' if shapes else ''}shown: {block!r}")
    for k, v in ps.items():
        hit = re.search(rf"\b{k}\b\W*{re.escape(str(float(v) if isinstance(v, Fraction) else v))}\b", block)
        if bool(hit) != params:
            return violated(f"the parameter {k!r} of node {i} is {'not ' if params else ''}shown: {block!r}")
    return holds()


def check_dot(txt, nodes, edges, shapes, params, maxlen):
    if not re.match(r"\s*(strict\s+)?digraph\b", txt):
        return violated("the DOT text is not a directed graph")
    ns = dot_nodes("\n".join(x for x in txt.split("\n") if "->" not in x))
    res = [same_count("node", [i for i, _ in ns], [n[0] for n in nodes])]
    lab = dict(ns)
    res += [shows(lab[n[0]], n, shapes, params, maxlen) for n in nodes if n[0] in lab]
    ids = [n[0] for n in nodes]
    res.append(same_count("edge", arrows(txt, ids), [e[:2] for e in edges]))
    for s, t, l in edges:
        line = [x for x in txt.split("\n") if (s, t) in arrows(x, ids)]
        if line and l and l not in line[0]:
            res.append(violated(f"the label {l!r} of the edge {s} -> {t} is not shown"))
        for k, v in STYLES.get((s, t), {}).items():
            if line and v not in line[0]:
                res.append(violated(f"the {k} {v!r} of the edge {s} -> {t} is not shown"))
    return worst(res)


def check_text(txt, nodes, edges, shapes, params):
    """one part per node, found by its id, and the edges"""
    ids = [n[0] for n in nodes]
    pos = [m.start() for m in re.finditer(r"\bEdges\b", txt)]
    ar = arrows(txt, ids)
    res = [same_count("edge", ar, [e[:2] for e in edges])]
    for s, t, l in edges:
        line = [x for x in txt.split("\n") if (s, t) in arrows(x, ids)]
        if line and l and l not in line[0]:
            res.append(violated(f"the label {l!r} of the edge {s} -> {t} is not shown"))
    body = "\n".join(x for x in txt.split("\n") if not arrows(x, ids))
    for n in nodes:
        c = len(re.findall(rf"(?<![\w.]){re.escape(n[0])}(?![\w.])", body))
        if c != 1:
            res.append(violated(f"node {n[0]} is shown {c} times"))
        if body.count(n[1]) < 1:
            res.append(violated(f"the name {n[1]!r} of node {n[0]} is not shown"))
        if n[2] != n[1] and n[2] not in body.replace(n[1], ""):
            res.append(violated(f"the type {n[2]!r} of node {n[0]} is not shown"))
        for on, d, what in ((shapes, n[3], "shape of input"), (params, n[4], "parameter")):
            for k, v in d.items():
                v = r"\D+".join(map(str, v)) if isinstance(v, tuple) else re.escape(str(float(v) if isinstance(v, Fraction) else v))
                hit = re.search(rf"\b{k}\b\W*{v}(?!\d)", body)
                if bool(hit) != on:
                    res.append(violated(f"the {what} {k!r} of node {n[0]} is {'not ' if on else ''}shown"))
    return worst(res)


def rendering(R, fmt, shapes=True, params=False, maxlen=20, to_file=False, mangle=False, nodes=NODES, edges=EDGES):
    L, g = built(R, "png" if fmt == "text" else fmt, {"include_shapes": shapes, "include_parameters": params, "max_label_length": maxlen}.items(), nodes, edges)
    fs = files(L)
    if fmt == "text":
        for n in ("HAS_GRAPHVIZ", "HAS_MATPLOTLIB"):
            L.I.gcache[(CG[:-1], n)] = FALSE
    path = "/out/graph." + fmt
    r = text_of(L, L.do(g, "render", *([path] if to_file else [])))
    if to_file:
        if r != path:
            return violated(f"render returns {r[:60]!r} for the output path {path!r}")
        if set(fs) != {path}:
            return violated(f"files written: {sorted(fs)}, required {path}")
        r = fs[path]
        if OLD in r:
            return violated("the file keeps what it held before")
    elif fs:
        return violated(f"a file {sorted(fs)} is written without output path")
    if mangle:
        edges = edges[1:]
    if fmt == "dot":
        return check_dot(r, nodes, edges, shapes, params, maxlen)
    return check_text(visible(r) if fmt == "html" else r, nodes, edges, shapes, params)


def drawing(R, to_file, mangle=False):
    """the matplotlib figure: a name at each node's place, an arrow from source to target for each edge"""
    L, g = built(R, "png")
    I = L.I
    I.gcache[(CG[:-1], "HAS_GRAPHVIZ")] = FALSE
    I.gcache[(CG[:-1], "HAS_MATPLOTLIB")] = TRUE
    texts, arrs, saved, known, links = [], [], [], [], []
    place = lambda i: Tup([sym(f"px_{i}"), sym(f"py_{i}")])
    val = lambda v, s: I.pyval(I.term(v, s))

    def add_node(I, a, k, s):
        known.append(val(a[0], s))
        return NONE

    def add_edge(I, a, k, s):
        links.append((val(a[0], s), val(a[1], s)))
        return NONE

    def text(I, a, k, s):
        texts.append((I.term(a[0], s), I.term(a[1], s), val(a[2] if len(a) > 2 else k["s"], s)))
        return NONE

    def annotate(I, a, k, s):
        f = lambda v: tuple(I.term(x, s) for x in I.iter_items(v, s))
        arrs.append((f(k["xytext"] if "xytext" in k else a[2]), f(k["xy"] if "xy" in k else a[1])))
        return NONE
    nop = Py("nop", lambda I, a, k, s: NONE)
    ax = Py("ax", lambda *a: NONE, {**{n: nop for n in ("add_patch", "set_xlim", "set_ylim", "set_aspect", "axis", "set_title", "margins", "set_axis_off")}, "text": Py("text", text), "annotate": Py("annotate", annotate)})

    def save(I, a, k, s):
        saved.append(I.term(a[0], s))
        return NONE
    fig = Py("fig", lambda *a: NONE, {"savefig": Py("savefig", save), "tight_layout": nop})
    I.handlers.update({
        "networkx.DiGraph": lambda I, a, k, s: Py("digraph", lambda *a: NONE, {"add_node": Py("add_node", add_node), "add_edge": Py("add_edge", add_edge)}),
        "networkx.spring_layout": lambda I, a, k, s: lift(I, s, {i: place(i) for i in dict.fromkeys(known + [x for e in links for x in e])}),
        "matplotlib.pyplot.subplots": lambda I, a, k, s: Tup([fig, ax]), "matplotlib.pyplot.savefig": save, "matplotlib.pyplot.close": lambda I, a, k, s: NONE,
        "matplotlib.patches.FancyBboxPatch": lambda I, a, k, s: NONE,
        "tempfile.NamedTemporaryFile": lambda I, a, k, s: Py("tmp", lambda *a: NONE, {"name": const("/tmp/x.png")}),
    })
    r = L.do(g, "render", *(["/out/g.png"] if to_file else []))
    want = const("/out/g.png" if to_file else "/tmp/x.png")
    if [x for x in saved if x is not want] or not saved:
        return violated(f"the figure is saved as {[show(x) for x in saved]}, required {show(want)}")
    xy = {n[0]: (sym(f"px_{n[0]}"), sym(f"py_{n[0]}")) for n in NODES}
    edges = EDGES[1:] if mangle else EDGES
    got_a = [tuple(next((i for i, p in xy.items() if p == q), "?") for q in e) for e in arrs]
    got_t = [(next((i for i, p in xy.items() if p == (x, y)), "?"), t) for x, y, t in texts]
    if any("?" in e for e in got_a) or any(i == "?" for i, _ in got_t):
        return undecided("something is drawn at a place that is not a node's")
    return worst([L.same(r, want, "returned path"), same_count("name", got_t, [n[:2] for n in NODES]), same_count("edge", got_a, [e[:2] for e in edges])])


def interactive(R, layout, mangle=False):
    """the Plotly figure: a named marker at each node's place, a line between the ends of each edge, details when hovering"""
    from .r94_plots import Figure, Surface
    L, g = built(R, "text")
    I = L.I
    m = JV[:-1]
    nop = Py("nop", lambda I, a, k, s: NONE)
    val = lambda v, s: I.pyval(I.term(v, s))
    seen, known, links, placed = [], {}, [], []
    fake = Py("renderer", nop.fn, {"nodes": L.get(g, "nodes"), "edges": L.get(g, "edges"), "analyze_streaming_function": Py("analyze", lambda I, a, k, s: (seen.append(tuple(a)), NONE)[1])})
    I.gcache[(m, "ComputationGraphRenderer")] = Py("ComputationGraphRenderer", lambda I, a, k, s: fake)
    for n in ("HAS_PLOTLY", "HAS_NETWORKX"):
        I.gcache[(m, n)] = TRUE

    def add_node(I, a, k, s):
        known.setdefault(val(a[0], s), {}).update(k)
        return NONE

    def add_edge(I, a, k, s):
        e = val(a[0], s), val(a[1], s)
        for i in e:
            known.setdefault(i, {})
        if e not in links:
            links.append(e)
        return NONE
    nodes = Py("nodes", lambda I, a, k, s: Tup([const(i) for i in known]), {"__getitem__": Py("node", lambda I, a, k, s: lift(I, s, dict(known[val(a[0], s)])))})
    edges = Py("edges", lambda I, a, k, s: Tup([Tup([const(x), const(y)]) for x, y in links]))
    nb = Py("neighbors", lambda I, a, k, s: Tup([const(y) for x, y in links if x == val(a[0], s)]))
    graph = Py("graph", nop.fn, {"add_node": Py("add_node", add_node), "add_edge": Py("add_edge", add_edge), "nodes": nodes, "edges": edges, "neighbors": nb, "successors": nb})

    def place(kind):
        def f(I, a, k, s):
            placed.append(kind)
            return lift(I, s, {i: Tup([sym(f"px_{i}"), sym(f"py_{i}")]) for i in known})
        return f
    I.handlers["networkx.DiGraph"] = lambda I, a, k, s: graph
    for n in ("spring", "circular", "kamada_kawai"):
        I.handlers[f"networkx.{n}_layout"] = place(n)
    I.gcache[(m, "nx")] = Py("nx", nop.fn, {"DiGraph": Py("DiGraph", lambda I, a, k, s: graph), **{f"{n}_layout": Py(n, place(n)) for n in ("spring", "circular", "kamada_kawai")}})
    log, figs = [], []

    def fig(I, a, k, s):
        f = Figure("fig", log)
        d = k.get("data", a[0] if a else None)
        f.traces = list(I.iter_items(d, s)) if d is not None else []
        f.sync()
        figs.append(f)
        return f
    scatter = Py("Scatter", lambda I, a, k, s: Surface("trace", log, {"marker": Surface("marker", log), **{x: Tup(list(I.iter_items(y, s))) if x in ("x", "y", "text", "hovertext") else y for x, y in k.items() if x != "marker"}}))
    I.gcache[(m, "go")] = Surface("go", log, {"FigureWidget": Py("FigureWidget", fig), "Figure": Py("Figure", fig), "Scatter": scatter})
    v = L.new(JV + "InteractivePipelineGraph")
    fn, _ = pair(L, TREES["nested"], "pair")
    r = L.do(v, "create_pipeline_graph", fn, A("x"), layout)
    if r is not (figs[-1] if figs else None):
        raise GiveUp("figure not returned")
    if len(seen) != 1 or fn not in seen[0] or A("x") not in seen[0]:
        return violated("the graph shown is not that of the given function and example")
    row = lambda t, n: list(t.attrs[n].items)
    text = lambda t, n: [text_of(L, x) for x in row(t, n)]
    xy = {n[0]: (sym(f"px_{n[0]}"), sym(f"py_{n[0]}")) for n in NODES}
    at = lambda p: next((i for i, q in xy.items() if q == p), "?")
    names, ends, tips = [], [], {}
    for t in figs[-1].traces:
        mode = text_of(L, t.attrs["mode"])
        pts = [(L.I.term(x, L.st), L.I.term(y, L.st)) for x, y in zip(row(t, "x"), row(t, "y"))]
        if "lines" in mode:
            run = []
            for p in pts + [(NONE, NONE)]:
                if p == (NONE, NONE):
                    ends += list(zip(run, run[1:]))
                    run = []
                else:
                    run.append(at(p))
        if "markers" in mode:
            names += list(zip(map(at, pts), text(t, "text")))
            tips.update(zip(map(at, pts), text(t, "hovertext")))
    if any("?" in e for e in ends) or any(i == "?" for i, _ in names):
        return undecided("something is drawn at a place that is not a node's")
    want = EDGES[1:] if mangle else EDGES
    res = [same_count("name", names, [n[:2] for n in NODES]), same_count("line", [tuple(sorted(e)) for e in ends], [tuple(sorted(e[:2])) for e in want])]
    for i, n, ty, _, ps in NODES:
        for what in (n, ty, *(k for k in ps)):
            if i in tips and what not in tips[i]:
                res.append(violated(f"hovering over node {i} does not tell {what!r}"))
    if layout in ("spring", "circular", "kamada_kawai"):
        res.append(holds() if placed == [layout] else violated(f"layout {placed}, required {layout}"))
    return worst(res)


def entry_point(R, f, tree):
    """render_pipeline_graph and export_graph_to_dot render the analysed graph with the given options"""
    L = Lab(R)
    fs = files(L)
    fn, _ = pair(L, tree, "pair")
    mod, node = R.p.need(CG + f)
    g = L.new(CG + "ComputationGraphRenderer", "dot", include_parameters=f[0] == "r")
    L.do(g, "analyze_streaming_function", pair(L, tree, "pair")[0], [1, 2])
    want = text_of(L, L.do(g, "render"))
    fun = L.I.global_value(mod, node.name)
    if f == "export_graph_to_dot":
        r = text_of(L, L.call(fun, fn, [1, 2], "/o.dot"))
        if r != "/o.dot" or set(fs) != {"/o.dot"}:
            return violated(f"returns {r!r}, writes {sorted(fs)}")
        r = fs["/o.dot"]
    else:
        r = text_of(L, L.call(fun, fn, [1, 2], format="dot", include_parameters=True))
    return holds() if r == want else violated(f"{f} does not give the DOT text of the analysed graph")


# --------------------------------------------------------------------------- nested graphs
def nested(R, backend, tree, cluster=True, to_file=False, mangle=False, meta=True, fmt="svg"):
    L = Lab(R)
    I = L.I
    fs = files(L)
    cfg = L.new(NG + "NestedGraphConfig", auto_cluster=cluster, include_metadata=meta, graphviz_format=fmt)
    data = []

    def dumps(I, a, k, s):
        data.append(I.pydata(a[0], s))
        return const(f"<<JSON {len(data) - 1}>>")
    I.handlers["json.dumps"] = dumps
    I.handlers["uuid.uuid4"] = lambda I, a, k, s: Py("uuid", lambda *a: NONE, {"hex": const("0123456789abcdef")})
    drawn, lines, stack = [], [], [()]
    val = lambda v, s: I.pyval(I.term(v, s))
    out = []

    def digraph(I, a, k, s):
        def make(path):
            def node(I, a, k, s):
                a = list(a) + [k["name"]] if not a else list(a)
                lab = k.get("label", a[1] if len(a) > 1 else a[0])
                drawn.append((path, val(a[0], s), val(lab, s)))
                return NONE

            def edge(I, a, k, s):
                lines.append((val(a[0], s), val(a[1], s)))
                return NONE

            def sub(I, a, k, s):
                return make(path + (val(k["name"] if "name" in k else a[1], s),))

            def attr(I, a, k, s):
                return NONE

            def render(I, a, k, s):
                out.append(val(a[0] if a else k["filename"], s))
                return const(out[-1] + "." + fmt)
            return Py("graph", lambda *a: NONE, {"node": Py("node", node), "edge": Py("edge", edge), "subgraph": Py("subgraph", sub), "attr": Py("attr", attr), "render": Py("render", render), "source": const("<<DOT>>")})
        return make(())
    I.handlers["graphviz.Digraph"] = digraph
    I.gcache[(NG[:-1], "HAS_GRAPHVIZ")] = TRUE
    fn, _ = pair(L, tree, "pair")
    v = L.new(NG + "NestedGraphVisualizer", cfg)
    path = "/out/g"
    r = text_of(L, L.do(v, "visualize_computation_graph", fn, A("x"), backend, *([path] if to_file else [])))
    an = L.new(NG + "HierarchicalGraphAnalyzer", cfg)
    h = L.entries(L.do(an, "analyze_streaming_function", pair(L, tree, "pair")[0], A("x")))
    g = lambda o, n: I.pyval(L.get(o, n))
    ref = {k: dict(name=g(o, "name"), type=g(o, "node_type"), parent=g(o, "parent"), level=int(g(o, "level")), kids=[I.pyval(c) for c in L.items(L.get(o, "children"))]) for k, o in h.items()}
    if mangle:
        ref.popitem()
    want_e = [(k, c) for k, o in ref.items() for c in o["kids"]]
    if backend == "graphviz":
        if to_file:
            if out != [path] or r != f"{path}.{fmt}":
                return violated(f"rendered to {out}, returns {r!r}, required {path}.{fmt}")
        elif r != "<<DOT>>" or out:
            return violated("does not return the DOT source")
        res = [same_count("node", [i for _, i, _ in drawn], list(ref))]
        for p, i, lab in drawn:
            if i not in ref:
                continue
            if ref[i]["name"] not in lab:
                res.append(violated(f"the name {ref[i]['name']!r} of node {i} is not in its label {lab!r}"))
            anc, q = [], i
            while q is not None:
                if ref[q]["kids"]:
                    anc.insert(0, q)
                q = ref[q]["parent"]
            if [any(c.startswith("cluster") for c in p)] != [bool(p)] or len(p) != len(anc) or any(not c.endswith(a) for c, a in zip(p, anc)):
                res.append(violated(f"node {i} is drawn in the clusters {p}, required those of {anc}"))
        return worst(res + [same_count("edge", lines, want_e)])
    if to_file:
        if r != path or set(fs) != {path}:
            return violated(f"returns {r[:60]!r}, writes {sorted(fs)}, required {path!r}")
        r = fs[path]
        if OLD in r:
            return violated("the file keeps what it held before")
    used = [d for n, d in enumerate(data) if f"<<JSON {n}>>" in r]
    if not used:
        return undecided("the page embeds no data made by json.dumps")
    d = used[0]
    if backend == "cytoscape":
        els = d if isinstance(d, list) else [x for q in d.values() for x in q]
        ids = [e["data"].get("id") for e in els]
        ns = [e["data"] for e in els if "source" not in e["data"]]
        es = [(e["data"]["source"], e["data"]["target"]) for e in els if "source" in e["data"]]
        dup = [i for i, c in Counter(ids).items() if c > 1 and i is not None]
        if dup:
            return violated(f"two elements have the id {dup[0]!r}")
        lab = "label"
    else:
        ns, es, lab = d["nodes"], [(e["source"], e["target"]) for e in d["links"]], "name"
    res = [same_count("node", [n["id"] for n in ns], list(ref)), same_count("edge", es, want_e)]
    for n in ns:
        o = ref.get(n["id"])
        if o is None:
            continue
        for key, w in ((lab, o["name"]), ("type", o["type"]), ("level", o["level"])) + ((("parent", o["parent"]),) if backend == "cytoscape" else ()):
            if n.get(key) != w:
                res.append(violated(f"{key} of node {n['id']} is {n.get(key)!r}, required {w!r}"))
    return worst(res)


def unknown_backend(R):
    L = Lab(R)
    v = L.new(NG + "NestedGraphVisualizer")
    try:
        L.do(v, "visualize_computation_graph", pair(L, TREES["one"], "pair")[0], A("x"), "ascii")
    except AbsRaise as e:
        return holds() if "ValueError" in str(e.exc) else violated(f"raises {e.exc} for an unknown backend")
    return violated("an unknown backend is accepted")


def in_notebook(R, backend):
    """display_in_jupyter shows the page of the visualizer for this backend"""
    got = []
    for direct in (True, False):
        L = Lab(R)
        I = L.I
        shown = []
        I.handlers["json.dumps"] = lambda I, a, k, s: const(repr(I.pydata(a[0], s)))
        I.handlers["uuid.uuid4"] = lambda I, a, k, s: Py("uuid", lambda *a: NONE, {"hex": const("0123456789abcdef")})
        for q in ("IPython.display.", "IPython.core.display."):
            I.handlers[q + "HTML"] = lambda I, a, k, s: Py("html", lambda *a: NONE, {"data": a[0] if a else k["data"]})

            def display(I, a, k, s):
                shown.extend(a)
                return NONE
            I.handlers[q + "display"] = display
        I.gcache[(NG[:-1], "HAS_IPYTHON")] = I.gcache[(NG[:-1], "HAS_GRAPHVIZ")] = TRUE
        nop = Py("nop", lambda I, a, k, s: NONE)
        graph_ = Py("graph", lambda *a: NONE, {"node": nop, "edge": nop, "attr": nop, "source": const("<<DOT>>")})
        graph_.attrs["subgraph"] = Py("subgraph", lambda I, a, k, s: graph_)
        I.handlers["graphviz.Digraph"] = lambda I, a, k, s: graph_
        v = L.new(NG + "NestedGraphVisualizer", L.new(NG + "NestedGraphConfig"))
        fn = pair(L, TREES["many"], "pair")[0]
        if direct:
            got.append(text_of(L, L.do(v, "visualize_computation_graph", fn, A("x"), backend)))
        else:
            L.do(v, "display_in_jupyter", fn, A("x"), backend)
            if len(shown) != 1 or not isinstance(shown[0], Py) or shown[0].name != "html":
                return undecided(f"{len(shown)} objects are displayed, none known to be a page") if shown else violated("nothing is displayed")
            got.append(text_of(L, shown[0].attrs["data"]))
    return holds() if got[0] == got[1] else violated(f"display_in_jupyter does not show the page of the {backend} backend")


def nested_entry(R, backend):
    """visualize_nested_graph is the visualizer of the given configuration"""
    got = []
    for direct in (True, False):
        L = Lab(R)
        I = L.I
        I.handlers["json.dumps"] = lambda I, a, k, s: const(repr(I.pydata(a[0], s)))
        I.handlers["uuid.uuid4"] = lambda I, a, k, s: Py("uuid", lambda *a: NONE, {"hex": const("0123456789abcdef")})
        cfg = L.new(NG + "NestedGraphConfig", auto_cluster=False)
        fn = pair(L, TREES["many"], "pair")[0]
        if direct:
            r = L.do(L.new(NG + "NestedGraphVisualizer", cfg), "visualize_computation_graph", fn, A("x"), backend)
        else:
            mod, node = R.p.need(NG + "visualize_nested_graph")
            r = L.call(I.global_value(mod, node.name), fn, A("x"), backend, config=cfg)
        got.append(text_of(L, r))
    return holds() if got[0] == got[1] else violated("visualize_nested_graph does not give the page of the visualizer with this configuration")


@prop("W91")
def formats(R):
    R.total = True
    w, wn = where_(R, CG + "ComputationGraphRenderer"), where_(R, NG + "NestedGraphVisualizer")
    R.rule("graph", "the DOT, HTML, text and matplotlib renderings show every node once with its name and type, every edge once from source to target with its label, and shapes and parameters exactly when included; DOT cuts names longer than max_label_length")
    R.rule("file", "with an output path the same content is written there and the path is returned")
    R.rule("nested", "the Graphviz, Cytoscape and D3 renderings show every node of the nested graph once, inside its parent, and one edge from each node to each of its children; unknown backends are refused")
    for f in ("dot", "html", "text"):
        for s in (True, False):
            for p in (True, False):
                R.ob("graph", f"{f},{'shapes' if s else 'no shapes'},{'parameters' if p else 'no parameters'}", lambda: rendering(R, f, s, p), w)
        R.ob("file", f, lambda: rendering(R, f, to_file=True), w)
        R.ob("graph", f"{f},empty", lambda: rendering(R, f, nodes=NODES[:1], edges=[]), w)
        R.control(lambda: rendering(R, f, mangle=True))
    for m in (5, 30, 29, 100):
        R.ob("graph", f"dot,max_label_length={m}", lambda: rendering(R, "dot", maxlen=m), w)
    R.ob("graph", "matplotlib", lambda: drawing(R, False), w)
    R.ob("file", "matplotlib", lambda: drawing(R, True), w)
    R.control(lambda: drawing(R, False, True))
    for f in ("spring", "circular", "kamada_kawai", "other"):
        R.ob("graph", f"interactive,{f}", lambda: interactive(R, f), where_(R, JV + "InteractivePipelineGraph"))
    R.control(lambda: interactive(R, "spring", True))
    for f in ("render_pipeline_graph", "export_graph_to_dot"):
        R.ob("graph", f, lambda: entry_point(R, f, TREES["nested"]), where_(R, CG + f))
    for b in ("graphviz", "cytoscape", "d3"):
        for nm, t in TREES.items():
            R.ob("nested", f"{b},{nm}", lambda: nested(R, b, t), wn)
        R.ob("nested", f"{b},no clusters", lambda: nested(R, b, TREES["nested"], False), wn)
        R.ob("nested", f"{b},no metadata", lambda: nested(R, b, TREES["nested"], True, meta=False), wn)
        R.ob("file", b, lambda: nested(R, b, TREES["nested"], True, True), wn)
        R.control(lambda: nested(R, b, TREES["many"], mangle=True))
    R.ob("file", "graphviz,png", lambda: nested(R, "graphviz", TREES["nested"], True, True, fmt="png"), wn)
    R.ob("nested", "unknown backend", lambda: unknown_backend(R), wn)
    for b in ("cytoscape", "d3"):
        R.ob("nested", f"display_in_jupyter,{b}", lambda: in_notebook(R, b), wn)
        R.ob("nested", f"visualize_nested_graph,{b}", lambda: nested_entry(R, b), where_(R, NG + "visualize_nested_graph"))
