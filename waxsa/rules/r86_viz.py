"""W86: recording of pipeline data (tracker, dashboard); W87: structure of the computation graphs."""
from collections import Counter
from fractions import Fraction

from . import prop
from ..interp import AbsRaise
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r46_patterns import lift
from .r81_monitor import A, Lab, bounded_growth, num

V = "wax.flax.visualization."
DF = V + "data_flow_visualizer."
DASH = V + "interactive_dashboard."
CG = V + "computation_graph."
NG = V + "nested_graph_viz."


# --------------------------------------------------------------------------- tracker and dashboard
POINTS = [("a", "input"), ("b", "output"), None, ("a", "state"), ("a", "input"), None, None, ("b", "input"), ("a", "output"), None, ("c", "input"), ("a", "input")]


def feed(L, o, rec, step, n=None):
    """records the points (None: next step); returns [(step, module, type, value)]"""
    out, k = [], 0
    for i, q in enumerate(POINTS[:n]):
        if q is None:
            step()
            k += 1
        else:
            rec(q[0], q[1], A(f"v{i}"), {"tag": const(i)})
            out.append((k, q[0], q[1], A(f"v{i}"), i))
    return out, k


def same_points(L, got, want, what, mangle=False):
    got = list(L.items(got))
    if len(got) != len(want):
        return violated(f"{what}: {len(got)} data points, required {len(want)}")
    res = []
    for g, (k, m, t, v, i) in zip(got, want):
        for nm, w in (("step", const(k + mangle)), ("module_name", const(m)), ("data_type", const(t)), ("value", v)):
            res.append(L.same(L.get(g, nm), w, f"{what}: {nm} of a data point"))
        res.append(L.same_tree(L.get(g, "metadata"), {"tag": const(i)}, f"{what}: metadata"))
    return worst(res)


def tracker(R, limit, query, mangle=False):
    L = Lab(R)
    o = L.new(DF + "DataFlowTracker", max_history=limit)
    pts, k = feed(L, o, lambda m, t, v, md: L.do(o, "record_data", m, t, v, md), lambda: L.do(o, "step"))
    if query == "recent":
        return worst([same_points(L, L.do(o, "get_recent_data", n), pts[-limit:][-n:] if n else [], f"the {n} most recent", mangle) for n in (1, 3, 100, 0)] + [L.same(L.get(o, "step_count"), const(k), "step_count")])
    if query == "default":
        return same_points(L, L.do(o, "get_recent_data"), pts[-limit:], "recent data")
    if query == "module":
        res = []
        for m in "abcz":
            mine = [p for p in pts if p[1] == m][-limit:]
            res.append(same_points(L, L.do(o, "get_module_history", m), mine, f"history of {m}"))
            for t in ("input", "state", "in", "put"):
                res.append(same_points(L, L.do(o, "get_module_history", m, t), [p for p in mine if p[2] == t], f"{t} history of {m}"))
        known = sorted(L.entries(L.get(o, "module_data")))
        if known != sorted({p[1] for p in pts}):
            res.append(violated(f"modules {known} after queries, recorded {sorted({p[1] for p in pts})}"))
        return worst(res)
    if query == "clear":
        L.do(o, "clear_history")
        e = [same_points(L, L.do(o, "get_recent_data", 100), [], "after clear_history"), same_points(L, L.do(o, "get_module_history", "a"), [], "after clear_history"), L.same(L.get(o, "step_count"), ZERO, "step_count")]
        if L.entries(L.get(o, "module_data")):
            e.append(violated("modules remembered after clear_history"))
        L.do(o, "record_data", "a", "input", A("w"), {"tag": ONE})
        e.append(same_points(L, L.do(o, "get_recent_data", 100), [(0, "a", "input", A("w"), 1)], "after clear_history"))
        L.do(o, "record_data", "new", "input", A("u"), {"tag": ZERO})
        return worst(e + [same_points(L, L.do(o, "get_module_history", "new"), [(0, "new", "input", A("u"), 0)], "of a new module after clear_history")])


def shapes(R):
    """the shape of a data point is that of its value"""
    L = Lab(R)
    o = L.new(DF + "DataFlowTracker")
    res = []
    arr = sym("arr", array=1, hasattr=("shape",))
    for v, w in ((arr, None), ([1, 2, 3], (3,)), ({"a": 1, "b": 2}, (2,)), (5, ()), ("abc", ())):
        L.do(o, "record_data", "m", "input", v)
        p = list(L.items(L.do(o, "get_recent_data", 1)))[0]
        g = L.get(p, "shape")
        if w is None:
            res.append(L.same(L.I.term(g, L.st), L.I.term(L.get(arr, "shape"), L.st), "shape of an array"))
        else:
            n = L.items(g)
            res.append(holds() if [num(x) for x in n] == list(w) else violated(f"shape {[num(x) for x in n]} for {v!r}"))
    return worst(res)


def dashboard(R, mangle=False, unknown=False):
    """records and steps of a pipeline reach its own tracker; metrics and alerts follow the given metadata"""
    L = Lab(R)
    cfg = L.new(DASH + "DashboardConfig", max_data_points=4, performance_threshold_ms=100, memory_threshold_mb=50)
    d = L.new(DASH + "InteractiveDashboard", cfg)
    f = Py("f", lambda I, a, k, s: a[0])
    for p in ("pq", "p", "q", "P"):
        L.do(d, "register_pipeline", p, f, A("x"))
    st = L.get(d, "state")
    pts, k = feed(L, d, lambda m, t, v, md: L.do(d, "record_pipeline_data", "p", m, t, v, md), lambda: L.do(d, "step_pipeline", "p"))
    data = L.entries(L.get(st, "data_trackers"))
    res = [same_points(L, L.do(data["p"], "get_recent_data", 100), pts[-4:], "pipeline p", mangle), *[same_points(L, L.do(data[q], "get_recent_data", 100), [], f"pipeline {q}") for q in ("pq", "q", "P")]]
    act = L.entries(L.get(st, "active_pipelines"))
    for p, n in (("p", k), ("q", 0), ("pq", 0), ("P", 0)):
        res.append(L.same(L.entries(act[p])["total_calls"], const(n), f"calls of {p}"))
        res.append(L.same(L.get(data[p], "step_count"), const(n), f"steps of {p}"))
    cfg2 = L.new(DASH + "DashboardConfig", max_data_points=2500)
    d2 = L.new(DASH + "InteractiveDashboard", cfg2)
    L.do(d2, "register_pipeline", "p", f, A("x"))
    res.append(L.same(L.get(L.entries(L.get(L.get(d2, "state"), "data_trackers"))["p"], "max_history"), const(2500), "data points kept"))
    if unknown:
        L.do(d, "record_pipeline_data", "zz", "m", "input", A("v"), {"execution_time_ms": const(500)})
        L.do(d, "step_pipeline", "zz")
        if L.items(L.get(st, "alerts")):
            return violated("an alert for a pipeline that is not registered")
        res.append(same_points(L, L.do(data["p"], "get_recent_data", 100), pts[-4:], "pipeline p"))
    return worst(res)


def alerts(R, enabled, mangle=False):
    L = Lab(R)
    cfg = L.new(DASH + "DashboardConfig", performance_threshold_ms=100, memory_threshold_mb=50, enable_alerts=enabled)
    d = L.new(DASH + "InteractiveDashboard", cfg)
    for p in "pq":
        L.do(d, "register_pipeline", p, Py("f", lambda I, a, k, s: a[0]), A("x"))
    st = L.get(d, "state")
    seq = [("p", {"execution_time_ms": 99}), ("p", {"execution_time_ms": 100}), ("q", {"execution_time_ms": 101}), ("p", {"memory_usage_mb": 51, "execution_time_ms": 3}), ("q", {"memory_usage_mb": 50}), ("p", {"memory_usage_mb": 80, "execution_time_ms": 200}), ("q", {}), ("q", None)]
    for p, md in seq:
        L.do(d, "record_pipeline_data", p, "m", "output", A("y"), md)
    want = [("performance", "q"), ("memory", "p"), ("performance", "p"), ("memory", "p")] if enabled else []
    if mangle:
        want = want[1:]
    got = [L.entries(x) for x in L.items(L.get(st, "alerts"))]
    if len(got) != len(want):
        return violated(f"{len(got)} alerts, required {len(want)}")
    res = []
    for g, (t, p) in zip(got, want):
        res += [L.same(g["type"], const(t), "type of an alert"), L.same(g["pipeline_id"], const(p), "pipeline of an alert")]
    m = L.entries(L.get(st, "performance_metrics"))
    for p in "pq":
        for key, nm in (("execution_time_ms", "execution_time"), ("memory_usage_mb", "memory_usage")):
            w = [md[key] for q, md in seq if q == p and md and key in md]
            if w and f"{p}_{nm}" not in m:
                res.append(violated(f"no {nm} metrics of {p}"))
                continue
            res.append(L.same(Tup(list(L.items(m[f"{p}_{nm}"])) if w else []), [const(x) for x in w], f"{nm} metrics of {p}") if w else holds())
    res.append(L.same(const(len(L.items(m["global_throughput"]))), const(len(seq)), "records counted in global_throughput") if "global_throughput" in m else violated("no global_throughput"))
    return worst(res)


@prop("W86")
def recording(R):
    R.total = True
    w, wd = where_(R, DF + "DataFlowTracker"), where_(R, DASH + "InteractiveDashboard")
    R.rule("tracker", "record_data appends one data point with the current step, module, type, value and metadata; the newest max_history are kept overall and per module; the queries return exactly the matching ones in order; clear_history forgets all")
    R.rule("dashboard", "data and steps of a registered pipeline go to its own tracker; unregistered ones change nothing; every measured time and memory use is kept and those above the threshold, and no others, raise an alert when alerts are enabled")
    R.rule("bounded", "no history grows beyond its maximum")
    for lim in (1, 3, 1000):
        for q in ("recent", "default", "module", "clear"):
            R.ob("tracker", f"{q},max_history={lim}", lambda: tracker(R, lim, q), w)
    R.ob("tracker", "shape of the value", lambda: shapes(R), w)
    R.ob("dashboard", "registered", lambda: dashboard(R), wd)
    R.ob("dashboard", "unregistered", lambda: dashboard(R, unknown=True), wd)
    for e in (True, False):
        R.ob("dashboard", f"alerts {'enabled' if e else 'disabled'}", lambda: alerts(R, e), wd)
    R.ob("bounded", "DataFlowTracker", lambda: bounded_growth(R, DF + "DataFlowTracker", {"max_history": 3}, lambda L, o, i: L.do(o, "record_data", f"m{i % 2}", "input", A("x")), 8), w)
    R.control(lambda: tracker(R, 3, "recent", True))
    R.control(lambda: dashboard(R, True))
    R.control(lambda: alerts(R, True, True))


# --------------------------------------------------------------------------- graphs
TREES = {
    "none": {},
    "one": {"dense": {"kernel": 1, "bias": 1}},
    "many": {"ewma_0": {"alpha": 1}, "ewma_1": {"logcom": 1}, "dense": {"kernel": 1}, "norm": {"scale": 1, "bias": 1}, "x_buffer": {"maxlen": 1}},
    "nested": {"enc": {"l0": {"kernel": 1}, "l1": {"kernel": 1, "bias": 1}}, "head": {"sub": {"deep": {"weight": 1}, "b": {"bias": 1}}, "k2": {"kernel": 1}}},
    "mixed": {"enc": {"bias": 1, "proj": {"kernel": 1, "bias": 1}, "mid": {"deep": {"scale": 1}}}, "ewma": {"alpha": 1, "gate": {"weight": 1}}},
    "no modules": {"w": 1, "b": 2},
    "deep": {"a": {"kernel": 1, "b": {"kernel": 1, "c": {"kernel": 1, "d": {"kernel": 1, "e": {"kernel": 1, "f": {"kernel": 1, "g": {"bias": 1}}}}}}}, "z": {"bias": 1}},
    "kinds": {"ewma_0": {"alpha": 1}, "ewma_1": {"alpha": 1}, "buffer_0": {"maxlen": 1}, "buffer_1": {"maxlen": 1}, "buffer_2": {"maxlen": 1}, "dense_0": {"kernel": 1}, "dense_1": {"kernel": 1},
              "hierarchical_0": {"kernel": 1}, "hierarchical_1": {"kernel": 1}, "hierarchical_2": {"kernel": 1}},
}
LEAFKEYS = ("kernel", "weight", "bias", "alpha", "scale", "logcom", "maxlen")


def modules_of(tree, path=""):
    out = []
    for k, v in tree.items():
        p = f"{path}.{k}" if path else k
        if isinstance(v, dict):
            out += ([(p, k)] if any(q in v for q in LEAFKEYS) else []) + modules_of(v, p)
    return out


def pair(L, tree, form, name="pipe"):
    """an init/apply pair whose init returns the parameters"""
    seen = []

    def init(I, a, k, s):
        seen.append(tuple(I.term(x, s) for x in a[1:]))
        if form == "pair":
            return Tup([lift(I, s, tree), lift(I, s, {"s": 1})])
        if form == "stateless":
            return Tup([lift(I, s, tree), lift(I, s, {})])
        return lift(I, s, {"params": tree})

    at = {"init": Py("init", init), "apply": Py("apply", lambda I, a, k, s: a[-1]), "__name__": const(name)}
    return Py("streaming", lambda I, a, k, s: a[0], at), seen


def graph(R, tree, form, mangle=False):
    """one node per module with parameters, one for the function; init sees the example"""
    L = Lab(R)
    fn, seen = pair(L, tree, form)
    g = L.new(CG + "ComputationGraphRenderer")
    L.do(g, "analyze_streaming_function", fn, A("x"))
    nodes = L.entries(L.get(g, "nodes"))
    want = dict(modules_of(tree))
    want["main"] = "pipe"
    if mangle:
        want.pop("main")
    if set(nodes) != set(want):
        return violated(f"nodes {sorted(nodes)}, required {sorted(want)}")
    res = [L.same(L.get(nodes[k], "name"), const(n), f"name of node {k}") for k, n in want.items()]
    res += [L.same(L.get(nodes[k], "id"), const(k), f"id of node {k}") for k in want]
    for e in L.items(L.get(g, "edges")):
        for q in ("source", "target"):
            if L.I.pyval(L.get(e, q)) not in nodes:
                return violated(f"an edge to the missing node {L.I.pyval(L.get(e, q))!r}")
    joined = sorted((L.I.pyval(L.get(e, "source")), L.I.pyval(L.get(e, "target"))) for e in L.items(L.get(g, "edges")))
    if joined != sorted((k.rsplit(".", 1)[0], k) for k in want if "." in k and k.rsplit(".", 1)[0] in want):
        return violated(f"edges {joined}: a module and its submodules with parameters are joined, nothing else")
    if seen and any(A("x") not in t for t in seen):
        return violated("the function is not initialised with the example")
    return worst(res)


def example(R, kind):
    """the function is initialised with the example (the items of a list or tuple), and its node shows the example's shape"""
    L = Lab(R)
    fn, seen = pair(L, TREES["one"], "variables")
    ex = {"list": [A("x"), A("y")], "tuple": (A("x"), A("y"), A("z")), "dict": {"u": [1, 2], "w": A("y")}}[kind]
    g = L.new(CG + "ComputationGraphRenderer")
    ex = L.lift(ex)
    L.do(g, "analyze_streaming_function", fn, ex)
    sh = L.get(L.entries(L.get(g, "nodes"))["main"], "input_shapes")
    sh = L.entries(sh)
    if list(sh) != ["input"]:
        return violated(f"input shapes of {list(sh)}")
    if kind == "dict":
        t = [show(L.I.term(v, L.st)) for v in L.items(sh["input"])]
        if len(t) != 2 or "u" not in t[0] or "w" not in t[1]:
            return violated(f"the shape of a dictionary is shown as {t}")
        return holds()
    n = 2 if kind == "list" else 3
    want = tuple(A(c) for c in "xyz"[:n])
    if len(seen) != 1 or seen[0] != want:
        return violated(f"the function is initialised with {[tuple(map(show, q)) for q in seen]}, required {tuple(map(show, want))}")
    return worst([L.same(v, const(n), "shape of the example") for v in L.items(sh["input"])])


def plain_graph(R):
    L = Lab(R)
    g = L.new(CG + "ComputationGraphRenderer")
    L.do(g, "analyze_streaming_function", Py("f", lambda I, a, k, s: a[0], {"__name__": const("f")}), A("x"))
    nodes = L.entries(L.get(g, "nodes"))
    if list(nodes) != ["main"]:
        return violated(f"nodes {list(nodes)} for a plain function")
    return L.same(L.get(nodes["main"], "name"), const("f"), "name of the node")


def dot(R):
    """the DOT text names every node and every edge added"""
    L = Lab(R)
    g = L.new(CG + "ComputationGraphRenderer", "dot")
    for i in "abc":
        L.do(g, "add_node", L.new(CG + "PipelineNode", f"id_{i}", f"name_{i}", "EWMA"))
    for s, t in (("id_a", "id_b"), ("id_b", "id_c"), ("id_a", "id_c")):
        L.do(g, "add_edge", L.new(CG + "PipelineEdge", s, t))
    txt = L.I.pyval(L.do(g, "render"))
    miss = [x for x in ('"id_a" [', '"id_b" [', '"id_c" [', '"id_a" -> "id_b"', '"id_b" -> "id_c"', '"id_a" -> "id_c"', "name_a", "name_b", "name_c") if x not in txt]
    return violated(f"the DOT text lacks {miss[0]}") if miss else holds()


def forest(R, tree, form, cluster, twice=False, mangle=False, least=2):
    """parents exist, children are the inverse of parents, levels are depths, all modules appear, the renderers show the same tree"""
    L = Lab(R)
    fn, _ = pair(L, tree, form)
    cfg = L.new(NG + "NestedGraphConfig", auto_cluster=cluster, cluster_min_nodes=least)
    an = L.new(NG + "HierarchicalGraphAnalyzer", cfg)
    if twice:
        L.do(an, "analyze_streaming_function", pair(L, TREES["deep"], form)[0], A("z"))
    h = L.entries(L.do(an, "analyze_streaming_function", fn, A("x")))
    val = lambda o, n: L.I.pyval(L.get(o, n))
    kids = {k: [L.I.pyval(c) for c in L.items(L.get(v, "children"))] for k, v in h.items()}
    par = {k: val(v, "parent") for k, v in h.items()}
    lev = {k: val(v, "level") for k, v in h.items()}
    clusters = {k for k, v in h.items() if val(v, "node_type") == "cluster"}
    want = {m for m, _ in modules_of(tree)} | {"main"}
    if mangle:
        lev = {k: v + 1 for k, v in lev.items()}
    if set(h) - clusters != want:
        return violated(f"nodes {sorted(set(h) - clusters)}, required {sorted(want)}")
    if clusters and not cluster:
        return violated("clusters although auto_cluster is off")
    for k in h:
        if "." in k and k.rsplit(".", 1)[0] in h and par[k] != k.rsplit(".", 1)[0]:
            return violated(f"submodule {k!r} is nested under {par[k]!r}")
        if par[k] is not None and par[k] not in h:
            return violated(f"parent {par[k]!r} of {k!r} does not exist")
        if sorted(kids[k]) != sorted(c for c in h if par[c] == k):
            return violated(f"children of {k!r}: {kids[k]}, but the nodes with this parent are {[c for c in h if par[c] == k]}")
        d, q = 0, k
        while par[q] is not None:
            q, d = par[q], d + 1
            if d > len(h):
                return violated(f"{k!r} is its own ancestor")
        if lev[k] != d:
            return violated(f"level of {k!r} is {lev[k]}, its depth {d}")
        if k in clusters:
            types = {val(h[c], "node_type") for c in kids[k]}
            if len(kids[k]) < least or len(types) != 1:
                return violated(f"cluster {k!r} has {len(kids[k])} members of types {sorted(types)}")
            mc = L.entries(L.get(h[k], "properties")).get("member_count")
            if mc is not None and L.I.pyval(mc) != len(kids[k]):
                return violated(f"member_count of cluster {k!r} is {L.I.pyval(mc)}, it has {len(kids[k])}")
    if cluster:
        alone_ = Counter(val(v, "node_type") for k, v in h.items() if par[k] is None and k not in clusters)
        many = [t for t, n in alone_.items() if n >= least]
        if many:
            return violated(f"{alone_[many[0]]} roots of type {many[0]!r} are not grouped, cluster_min_nodes is {least}")
    if L.I.pyval(L.do(an, "get_max_level")) != max(lev.values()):
        return violated(f"get_max_level gives {L.I.pyval(L.do(an, 'get_max_level'))}, required {max(lev.values())}")
    return holds(f"{len(h)} nodes")


def summary(R, tree, form):
    L = Lab(R)
    fn, _ = pair(L, tree, form)
    v = L.new(NG + "NestedGraphVisualizer", L.new(NG + "NestedGraphConfig", auto_cluster=True))
    s = L.entries(L.do(v, "get_hierarchy_summary", fn, A("x")))
    h = L.entries(s["hierarchy"])
    val = lambda o, n: L.I.pyval(L.get(o, n))
    types, levels = {}, {}
    for x in h.values():
        types[val(x, "node_type")] = types.get(val(x, "node_type"), 0) + 1
        levels[val(x, "level")] = levels.get(val(x, "level"), 0) + 1
    res = [L.same(s["total_nodes"], const(len(h)), "total_nodes"), L.same(s["max_hierarchy_level"], const(max(levels)), "max_hierarchy_level")]
    for nm, w in (("node_types", types), ("nodes_per_level", levels)):
        e = {(int(k) if isinstance(k, Fraction) else k): v for k, v in L.entries(s[nm]).items()}
        if set(e) != set(w):
            return violated(f"{nm} has the entries {sorted(map(str, e))}, required {sorted(map(str, w))}")
        res += [L.same(e[k], const(n), f"{nm}[{k}]") for k, n in w.items()]
    return worst(res)


@prop("W87")
def graphs(R):
    R.total = True
    w, wh = where_(R, CG + "ComputationGraphRenderer"), where_(R, NG + "HierarchicalGraphAnalyzer")
    R.rule("nodes", "the computation graph has one node per module holding parameters, under its dotted path, and one for the function itself; edges join existing nodes; the DOT text shows all of them")
    R.rule("forest", "in the nested graph every module appears, parents exist, children are the inverse of parents, levels are depths and a cluster groups at least cluster_min_nodes roots of one type")
    R.rule("summary", "get_hierarchy_summary counts the nodes of that graph per type and level")
    for form in ("pair", "variables"):
        for nm, t in TREES.items():
            R.ob("nodes", f"{nm},{form}", lambda: graph(R, t, form), w)
            for c in (True, False):
                R.ob("forest", f"{nm},{form}{',clusters' if c else ''}", lambda: forest(R, t, form, c), wh)
            R.ob("summary", f"{nm},{form}", lambda: summary(R, t, form), wh)
    for n in (1, 3, 4):
        R.ob("forest", f"cluster_min_nodes={n}", lambda: forest(R, TREES["kinds"], "pair", True, least=n), wh)
    R.ob("nodes", "empty state", lambda: graph(R, TREES["nested"], "stateless"), w)
    for k in ("list", "tuple", "dict"):
        R.ob("nodes", f"{k} example", lambda: example(R, k), w)
    R.ob("forest", "second analysis", lambda: forest(R, TREES["nested"], "pair", True, True), wh)
    R.ob("nodes", "plain function", lambda: plain_graph(R), w)
    R.ob("nodes", "DOT", lambda: dot(R), w)
    R.control(lambda: graph(R, TREES["one"], "pair", True))
    R.control(lambda: forest(R, TREES["many"], "pair", True, mangle=True))
