"""W93: what the clients of a dashboard get (REST routes, web socket events) is what was recorded."""
from fractions import Fraction

from . import prop
from .. import nd
from ..interp import Arr, Ref, Bound, Func, GiveUp, NONE, PDict, Py, Tup
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r46_patterns import lift
from .r81_monitor import A, Lab, add
from .r86_viz import DASH, DF

F = Fraction


class Web:
    """a dashboard on a model of Flask: registered routes and events, everything emitted"""

    def __init__(self, R, **cfg):
        L = self.L = Lab(R)
        I = L.I
        I.scalar_items = True
        self.routes, self.events, self.sent, self.told = {}, {}, [], []
        pv = lambda v, s: I.pyval(I.term(v, s))

        def registrar(table):
            def f(I2, a, k, s):
                key = pv(a[0], s)

                def deco(I3, b, kw, s3):
                    table[key] = b[0]
                    return b[0]
                if len(a) > 1 and isinstance(a[-1], (Func, Bound, Py)):
                    table[key] = a[-1]
                    return NONE
                if "view_func" in k or "handler" in k:
                    table[key] = k.get("view_func", k.get("handler"))
                    return NONE
                return Py("decorator", deco)
            return Py("register", f)

        reg = registrar(self.routes)
        on = registrar(self.events)
        out = lambda where: Py("emit", lambda I2, a, k, s: (where.append((pv(a[0], s), a[1])), NONE)[1])
        app = lambda I2, a, k, s: Py("app", lambda *q: NONE, {"config": I2.alloc(s, PDict({})), "route": reg, "add_url_rule": reg, "get": reg})
        sio = lambda I2, a, k, s: Py("socketio", lambda *q: NONE, {"on": on, "on_event": on, "emit": out(self.sent)})
        self.sid = ["c1"]
        m = DASH[:-1]
        for n, v in (("HAS_FLASK", TRUE), ("HAS_STREAMLIT", FALSE), ("Flask", Py("Flask", app)), ("SocketIO", Py("SocketIO", sio)), ("jsonify", Py("jsonify", lambda I2, a, k, s: a[0] if a else I2.alloc(s, PDict(dict(k))))),
                     ("emit", out(self.told)), ("request", Request(self))):
            I.gcache[(m, n)] = v
        self.cfg = L.new(DASH + "DashboardConfig", **cfg)
        self.d = L.new(DASH + "InteractiveDashboard", self.cfg)
        self.state = L.get(self.d, "state")

    def register(self, *ids):
        for p in ids:
            self.L.do(self.d, "register_pipeline", p, Py("f", lambda I, a, k, s: a[0]), A("x"))

    def get(self, path, *a):
        if path not in self.routes:
            raise GiveUp(f"no route {path}: {sorted(self.routes)}")
        return self.L.call(self.routes[path], *a)

    def event(self, name, *a):
        if name not in self.events:
            raise GiveUp(f"no event {name}: {sorted(self.events)}")
        return self.L.call(self.events[name], *a)

    def record(self, p, m, t, v, md=None):
        self.L.do(self.d, "record_pipeline_data", p, m, t, v, md)




def Request(web):
    web.request = Py("request", lambda *q: NONE, {"sid": const("c1")})
    return web.request


def same_seq(L, got, want, what):
    """want: list of dicts"""
    got = list(L.items(got))
    if len(got) != len(want):
        return violated(f"{what}: {len(got)} entries, required {len(want)}")
    return worst([same_value(L, g, w, f"{what}[{i}]") for i, (g, w) in enumerate(zip(got, want))] + [holds()])


def tup(L, xs):
    return [x if isinstance(x, T) else const(x) for x in xs]


def same_value(L, got, want, what):
    """want: dicts, lists, terms"""
    if isinstance(want, dict):
        e = L.entries(got)
        return worst([same_value(L, e[k], w, f"{what}[{k}]") if k in e else violated(f"{what} has no entry {k!r}") for k, w in want.items()])
    if isinstance(want, list):
        if isinstance(got, Arr):
            return violated(f"{what}: an array, not a list")
        items = L.items(got)
        if items is None:
            return undecided(f"{what}: elements not known")
        items = list(items)
        if len(items) != len(want):
            return violated(f"{what}: {len(items)} elements, required {len(want)}")
        return worst([same_value(L, g, w, f"{what}[{i}]") for i, (g, w) in enumerate(zip(items, want))] + [holds()])
    if isinstance(want, T) and want.op in ("num", "bool", "obj") and isinstance(got, Ref):
        return violated(f"{what}: a container, required {show(want)}")
    return L.same(got, want, what)


# --------------------------------------------------------------------------- values
def arr(shape, pre):
    n = 1
    for s in shape:
        n *= s
    return nd.build(tuple(shape), [sym(f"{pre}{i}") for i in range(n)])


def values(L):
    """(value, what a client gets)"""
    small = arr((2, 2), "s")
    return [(3, const(3)), (F(1, 2), const(F(1, 2))), ("abc", const("abc")), (True, TRUE), ({"a": 1, "b": [2, "x"]}, {"a": ONE, "b": tup(L, [2, "x"])}), ([1, 2], tup(L, [1, 2])), ((5, "u"), tup(L, [5, "u"])),
            (list(range(10)), tup(L, range(10))), (list(range(11)), {"type": const("sequence"), "length": const(11)}),
            (arr((10,), "t"), [sym(f"t{i}") for i in range(10)]), (small, [[sym("s0"), sym("s1")], [sym("s2"), sym("s3")]])]


def serialised(R, i, mangle=False):
    W = Web(R)
    L = W.L
    W.register("p")
    v, want = values(L)[i]
    W.record("p", "m", "input", v)
    r = L.entries(W.get("/api/pipeline/<pipeline_id>/data", "p"))
    e = L.entries(list(L.items(r["data"]))[-1])
    return same_value(L, e["value"], const("zz") if mangle else want, "serialised value")


def large(R, n, mangle=False):
    """a large array is summarised"""
    W = Web(R)
    L = W.L
    W.register("p")
    W.record("p", "m", "input", arr((n,), "u"))
    r = L.entries(W.get("/api/pipeline/<pipeline_id>/data", "p"))
    e = L.entries(list(L.items(r["data"]))[-1])["value"]
    us = [sym(f"u{i}") for i in range(n)]
    s = us[0]
    for u in us[1:]:
        s = add(s, u)
    d = L.entries(e)
    res = []
    res += [L.same(d["type"], const("array"), "type"), same_value(L, d["shape"], tup(L, [n]), "shape"), L.same(d["mean"], mk("mul", s, const(F(1, n + mangle))), "mean")]
    return worst(res)


def extremes(R, n, k, mangle=False):
    """the summary of a large array of known numbers"""
    W = Web(R)
    L = W.L
    W.register("p")
    xs = [F(k * i % n - n // 2, 2) for i in range(n)]
    W.record("p", "m", "input", nd.build((n,), [const(x) for x in xs]))
    r = L.entries(W.get("/api/pipeline/<pipeline_id>/data", "p"))
    d = L.entries(L.entries(list(L.items(r["data"]))[-1])["value"])
    return worst([L.same(d["min"], const(min(xs) + mangle), "min"), L.same(d["max"], const(max(xs)), "max"), L.same(d["mean"], const(sum(xs) / n), "mean")])


# --------------------------------------------------------------------------- routes
VALUES = (
    lambda i: (i, const(i)),
    lambda i: (arr((2,), f"v{i}"), [sym(f"v{i}0"), sym(f"v{i}1")]),
    lambda i: ({"a": arr((2,), f"v{i}"), "b": i}, {"a": [sym(f"v{i}0"), sym(f"v{i}1")], "b": const(i)}),
    lambda i: ([arr((1,), f"v{i}"), i, {"c": [arr((1,), f"u{i}")]}], [[sym(f"v{i}0")], const(i), {"c": [[sym(f"u{i}0")]]}]),
    lambda i: ("text", const("text")),
    lambda i: (Tup([arr((1,), f"v{i}"), const(i)]), [[sym(f"v{i}0")], const(i)]),
)


def data_route(R, n, mangle=False):
    """the newest 100 data points, serialised, with the number of steps"""
    W = Web(R, max_data_points=1000)
    L = W.L
    L.I.MAX_FILL = L.I.MAX_UNROLL = 400
    W.register("p", "q")
    pts, steps = [], 0
    for i in range(n):
        val, sent = VALUES[i % len(VALUES)](i)
        W.record("p" if i % 5 else "q", f"m{i % 3}", "input" if i % 2 else "output", val, {"k": const(i), "a": arr((2,), "w"), "deep": [val, {"z": val}]})
        if i % 5:
            pts.append({"step": const(steps + mangle), "module_name": const(f"m{i % 3}"), "data_type": const("input" if i % 2 else "output"), "value": sent, "metadata": {"k": const(i), "a": [sym("w0"), sym("w1")], "deep": [sent, {"z": sent}]}})
        if i % 4 == 3:
            L.do(W.d, "step_pipeline", "p")
            steps += 1
    r = L.entries(W.get("/api/pipeline/<pipeline_id>/data", "p"))
    return worst([L.same(r["pipeline_id"], const("p"), "pipeline_id"), L.same(r["total_steps"], const(steps), "total_steps"), same_seq(L, r["data"], pts[-100:], "data")])


def listing(R, ids):
    W = Web(R)
    L = W.L
    W.register(*ids)
    r = L.entries(W.get("/api/pipelines"))
    res = [L.same(r["count"], const(len(ids)), "count"), L.same(Tup(list(L.items(r["pipelines"]))), [const(x) for x in ids], "pipelines")]
    for path in ("/api/pipeline/<pipeline_id>/data", "/api/pipeline/<pipeline_id>/graph"):
        x = W.get(path, "zz")
        if not (isinstance(x, Tup) and len(x.items) == 2):
            res.append(violated(f"{path} of an unknown pipeline answers {show(L.I.term(x, L.st))[:80]}"))
        else:
            res.append(L.same(x.items[1], const(404), "status of an unknown pipeline"))
    return worst(res)


def performance(R, n, mangle=False):
    """per metric the newest 50 values, their last one and their mean"""
    W = Web(R)
    L = W.L
    L.I.MAX_FILL = L.I.MAX_UNROLL = 400
    L.now[:] = [const(5)]
    W.register("p")
    vals = [F(3 * i % 17 + 1, 4) for i in range(n)]
    for i, v in enumerate(vals):
        W.record("p", "m", "output", 1, {"execution_time_ms": const(v), **({"memory_usage_mb": const(v * 2)} if i % 2 else {})})
    r = L.entries(W.get("/api/performance"))
    res = []
    for nm, vs in (("p_execution_time", vals), ("p_memory_usage", [v * 2 for i, v in enumerate(vals) if i % 2])):
        if not vs:
            continue
        if nm not in r:
            return violated(f"no metric {nm}: {sorted(r)}")
        k = vs[-50:]
        e = L.entries(r[nm])
        res += [L.same(Tup(list(L.items(e["values"]))), [const(x) for x in k], f"{nm} values"), L.same(e["current"], const(k[-1] + mangle), f"current {nm}"), L.same(e["average"], const(sum(k) / len(k)), f"average {nm}")]
    return worst(res + [holds()])


def alert_route(R, n, mangle=False):
    """all kept alerts (the newest 100) in order"""
    W = Web(R, performance_threshold_ms=10, memory_threshold_mb=20)
    L = W.L
    L.I.MAX_FILL = L.I.MAX_UNROLL = 400
    L.now[:] = [const(5)]
    W.register("p", "q")
    want = []
    for i in range(n):
        p = "pq"[i % 2]
        W.record(p, "m", "output", 1, {"execution_time_ms": const(i), "memory_usage_mb": const(2 * i)})
        if i > 10:
            want.append({"type": const("performance"), "pipeline_id": const(p)})
        if 2 * i > 20:
            want.append({"type": const("memory"), "pipeline_id": const(p)})
    want = want[-100:]
    if mangle and want:
        want[0] = {"type": const("zz")}
    r = L.entries(W.get("/api/alerts"))
    res = [L.same(r["count"], const(len(want)), "count"), same_seq(L, r["alerts"], want, "alerts")]
    sent = [L.entries(x) for n, x in W.sent if n == "alert"]
    if len(sent) < len(want):
        res.append(violated(f"{len(sent)} alerts sent to the clients of {len(want)} raised"))
    return worst(res)


# --------------------------------------------------------------------------- web socket
def broadcast(R, mangle=False):
    """every data point recorded while a client is connected is sent once"""
    W = Web(R)
    L = W.L
    L.now[:] = [const(7)]
    W.register("p", "q")
    want = []

    def rec(p, i, live):
        W.record(p, f"m{i}", "input", i)
        if live:
            want.append({"pipeline_id": const(p), "module_name": const(f"m{i}"), "data_type": const("input"), "value": const(i + mangle), "step": const(sum(1 for x in steps if x == p))})

    steps = []
    rec("p", 0, False)
    W.event("connect")
    rec("p", 1, True)
    steps.append("p")
    L.do(W.d, "step_pipeline", "p")
    rec("p", 2, True)
    rec("q", 3, True)
    rec("q", 4, True)
    W.event("disconnect")
    rec("p", 5, False)
    W.event("connect")
    W.event("connect")
    rec("q", 6, True)
    # a second client comes, the first one goes; then the second goes
    W.request.attrs["sid"] = const("c2")
    W.event("connect")
    W.request.attrs["sid"] = const("c1")
    W.event("disconnect")
    rec("p", 7, True)
    W.request.attrs["sid"] = const("c2")
    W.event("disconnect")
    rec("p", 8, False)
    got = [x for n, x in W.sent if n == "pipeline_data_update"]
    if len(got) != len(want):
        return violated(f"{len(got)} data points sent, required {len(want)}")
    return worst([L.same_tree(g, w, f"message {i}") for i, (g, w) in enumerate(zip(got, want))])


def subscription(R):
    W = Web(R)
    L = W.L
    W.register("p")
    W.event("subscribe_pipeline", {"pipeline_id": "p"})
    W.event("subscribe_pipeline", {"pipeline_id": "zz"})
    names = [n for n, _ in W.told]
    if names != ["pipeline_subscribed", "error"]:
        return violated(f"answers {names} to a subscription of a known and an unknown pipeline")
    return L.same_tree(W.told[0][1], {"pipeline_id": const("p")}, "answer")


@prop("W93")
def clients(R):
    R.total = True
    w = where_(R, DASH + "InteractiveDashboard")
    R.rule("value", "a value is sent as it is (numbers, texts, truth values), element by element (dictionaries, sequences and arrays of up to ten elements) or summarised (longer ones)")
    R.rule("route", "the routes list the registered pipelines, the newest 100 data points of a pipeline with its steps, per metric the newest 50 values with the last and the mean, and the kept alerts; unknown pipelines are answered with 404")
    R.rule("events", "while a client is connected every recorded data point is sent once with its pipeline, module, type, value and step; every alert is sent when raised; a subscription is confirmed exactly for registered pipelines")
    for i in range(11):
        R.ob("value", f"case {i}", lambda: serialised(R, i), w)
    R.control(lambda: serialised(R, 0, True))
    for n in (11, 13):
        R.ob("value", f"array of {n}", lambda: large(R, n), w)
    for n, k in ((11, 4), (17, 5)):
        R.ob("value", f"array of {n} numbers", lambda: extremes(R, n, k), w)
    R.control(lambda: extremes(R, 11, 4, True))
    R.control(lambda: large(R, 11, True))
    for ids in ((), ("p",), ("b", "a", "c")):
        R.ob("route", f"pipelines {list(ids)}", lambda: listing(R, ids), w)
    for n in (0, 1, 6, 130):
        R.ob("route", f"data, {n} records", lambda: data_route(R, n), w)
    R.control(lambda: data_route(R, 6, True))
    for n in (0, 1, 2, 49, 53, 108):
        R.ob("route", f"performance, {n} records", lambda: performance(R, n), w)
    R.control(lambda: performance(R, 2, True))
    for n in (0, 12, 14, 70):
        R.ob("route", f"alerts, {n} records", lambda: alert_route(R, n), w)
    R.control(lambda: alert_route(R, 13, True))
    R.ob("events", "broadcast", lambda: broadcast(R), w)
    R.control(lambda: broadcast(R, True))
    R.ob("events", "subscription", lambda: subscription(R), w)
