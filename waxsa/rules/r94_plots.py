"""W94: what the plots of recorded data show (text, matplotlib, bokeh, notebook figures, controls)."""
from fractions import Fraction

from . import prop
from .. import nd
from ..interp import AbsRaise, GiveUp, NONE, Py, Splat, Tup
from ..judge import *
from ..terms import *
from .r10_windows import where_
from .r46_patterns import lift
from .r81_monitor import A, Lab
from .r86_viz import DF, V
from .r91_formats import files, text_of

F = Fraction
JV = V + "jupyter_viz."
BV = V + "bokeh_viz."


# --------------------------------------------------------------------------- drawing surfaces
class Attrs(dict):
    """attributes that are not set are methods which record their calls"""

    def __init__(self, owner, given):
        super().__init__(given)
        self.owner = owner

    def __contains__(self, name):
        return dict.__contains__(self, name) or not name.startswith("__")

    def __missing__(self, name):
        if name.startswith("__"):
            raise KeyError(name)
        return self.owner.child(name)

    def get(self, name, d=None):
        return self[name] if name in self else d


class Surface(Py):
    settable = True

    def __init__(self, name, log, given=None):
        def called(I, a, k, s):
            log.append((name, tuple(a), dict(k)))
            return Surface(name + "()", log)
        super().__init__(name, called)
        self.log = log
        self.attrs = Attrs(self, given or {})
        self.kids = {}

    def child(self, n):
        if n not in self.kids:
            self.kids[n] = Surface(f"{self.name}.{n}", self.log)
        return self.kids[n]


class Figure(Surface):
    """a notebook figure: traces with names and data"""

    def __init__(self, name, log):
        super().__init__(name, log)
        self.traces = []
        self.attrs["data"] = Tup([])
        self.attrs["add_scatter"] = Py("add_scatter", self.add)
        self.attrs["add_trace"] = Py("add_trace", lambda I, a, k, s: (self.traces.append(a[0]), self.sync())[1])
        self.attrs["batch_update"] = Py("batch_update", lambda I, a, k, s: Py("batch", lambda *q: NONE, {"__enter__": Py("enter", lambda *q: NONE), "__exit__": Py("exit", lambda *q: NONE)}))

    def add(self, I, a, k, s):
        self.traces.append(Surface("trace", self.log, k))
        return self.sync()

    def sync(self):
        self.attrs["data"] = Tup(self.traces)
        return NONE


def lab(R):
    L = Lab(R)
    L.I.scalar_items = True
    L.I.MAX_FILL = L.I.MAX_UNROLL = 600
    L.now[:] = [const(0)]
    ids = {}
    L.I.handlers["builtins.id"] = lambda I, a, k, s: const(1000 + ids.setdefault(id(a[0]), (len(ids), a[0]))[0]) if isinstance(a[0], Surface) else mk("app", "id", I.term(a[0], s))
    return L


# --------------------------------------------------------------------------- recorded points
def record(L, pts, limit=1000):
    """pts: (module, type, value, shape); a step every three points, one time unit per point"""
    o = L.new(DF + "DataFlowTracker", max_history=limit)
    out, k = [], 0
    for i, (m, t, v, shp) in enumerate(pts):
        L.now[:] = [const(i)]
        L.do(o, "record_data", m, t, v)
        out.append((k, m, t, v, shp, i))
        if i % 3 == 2:
            L.do(o, "step")
            k += 1
    return o, out, k


def stream(n, numbers=False):
    out = []
    for i in range(n):
        m, t = "abc"[(i * i + i // 4) % 3], ("input", "output", "state")[i % 3]
        kind = 0 if numbers else i % 5
        v, shp = [(F(7 * i % 23, 2), ()), (i, ()), ((1, 2, i), (3,)), ({"k": 1}, (1,)), (nd.build((2, 3), [sym(f"x{i}_{j}") for j in range(6)]), (2, 3))][kind]
        out.append((m, t, v, shp))
    return out


def number(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def plain(L, v):
    """numbers of a sequence"""
    it = L.items(v)
    if it is None:
        raise GiveUp("elements not known")
    return [L.I.pyval(L.I.term(x, L.st)) for x in it]


def compare(got, want, what):
    return holds() if got == want else violated(f"{what}: {str(got)[:160]}, required {str(want)[:160]}")


# --------------------------------------------------------------------------- text
def shown_value(v, shp):
    if number(v):
        return f"{float(v):.3f}"
    if isinstance(v, dict):
        return f"dict({len(v)} keys)"
    if isinstance(v, tuple):
        return f"tuple({len(v)})"
    return None


def text(R, n, limit=1000, only=None, types=None, save=False, mangle=False):
    L = lab(R)
    fs = files(L)
    o, pts, k = record(L, stream(n), limit)
    v = L.new(DF + "DataFlowVisualizer", "text")
    L.do(v, "attach_tracker", o)
    kw = {}
    if only is not None:
        kw["module_names"] = list(only)
    if types is not None:
        kw["data_types"] = list(types)
    r = text_of(L, L.do(v, "create_streaming_plot", **kw))
    res = []
    if save:
        path = L.do(v, "save_plot", "out.txt")
        res = [L.same(path, const("out.txt"), "path"), compare(list(fs), ["out.txt"], "files written"), compare(fs.get("out.txt"), r, "saved text")]
    want = [p for p in pts[-limit:] if (only is None or p[1] in only) and (types is None or p[2] in types)][-20:]
    rows = [[c.strip() for c in line.split("|")] for line in r.split("\n") if "|" in line]
    shown = want[-10:]
    if len(rows) != len(shown):
        return violated(f"{len(rows)} data points listed, required the newest {len(shown)}")
    for row, (s, m, t, val, shp, _) in zip(rows, shown):
        w = shown_value(val, shp)
        if row[0].split() != ["Step", str(s + mangle)] or row[1:3] != [m, t] or (w is not None and row[3] != w):
            return violated(f"listed {row}, required step {s}, {m}, {t}, {w}")
    if want:
        head = {line.split(":")[0]: line.split(":")[1].strip() for line in r.split("\n") if ":" in line and "|" not in line}
        facts = {"Active modules": str(len({p[1] for p in want})), "Data types": ", ".join(sorted({p[2] for p in want})), "Total steps": str(k), "Recent points": str(len(want))}
        res += [compare(head.get(x), y, x) for x, y in facts.items()]
    return worst(res + [holds()])


# --------------------------------------------------------------------------- matplotlib
def axes_of(L, log):
    axs = Tup([Surface(f"ax{i}", log) for i in range(4)])
    fig = Surface("fig", log)
    both = Py("axes", lambda *a: NONE, {"flatten": Py("flatten", lambda *a: axs), "ravel": Py("ravel", lambda *a: axs), "flat": axs})
    plt = Surface("plt", log, {"subplots": Py("subplots", lambda I, a, k, s: Tup([fig, both]))})
    m = DF[:-1]
    anim = []

    def func_animation(I, a, k, s):
        anim.append((a, k))
        return Surface("anim", log)
    for nm, v in (("plt", plt), ("HAS_MATPLOTLIB", TRUE), ("animation", Surface("animation", log, {"FuncAnimation": Py("FuncAnimation", func_animation)}))):
        L.I.gcache[(m, nm)] = v
    return fig, anim


def curves(L, log, ax):
    """{label: [(x, y)]} of the lines drawn since the axes were cleared last"""
    out = {}
    for nm, a, k in log:
        if nm == f"{ax}.clear":
            out = {}
        if nm == f"{ax}.plot":
            xs, ys = plain(L, a[0]), plain(L, a[1])
            key = L.I.pyval(L.I.term(k["label"], L.st)) if "label" in k else None
            if key in out:
                raise GiveUp("several lines with one label")
            out[key] = list(zip(xs, ys))
    return out


def dots(L, log, ax):
    out = []
    for nm, a, k in log:
        if nm == f"{ax}.clear":
            out = []
        if nm == f"{ax}.scatter":
            xs, ys = L.items(a[0]) if not isinstance(a[0], T) else [a[0]], L.items(a[1]) if not isinstance(a[1], T) else [a[1]]
            out += [(L.I.pyval(L.I.term(x, L.st)), L.I.pyval(L.I.term(y, L.st))) for x, y in zip(xs, ys)]
    return out


def labels_of(L, log, ax):
    """{position: label} of the ticks of the vertical axis"""
    pos, lab = None, None
    for nm, a, k in log:
        if nm == f"{ax}.clear":
            pos = lab = None
        if nm == f"{ax}.set_yticks":
            pos = plain(L, a[0])
            if len(a) > 1 or "labels" in k:
                lab = plain(L, a[1] if len(a) > 1 else k["labels"])
        if nm == f"{ax}.set_yticklabels":
            lab = plain(L, a[0])
    return None if pos is None or lab is None else dict(zip(pos, lab))


def by_module(pts, f):
    out = {}
    for p in pts:
        y = f(p)
        if y is not None:
            out.setdefault(p[1], []).append((p[0], y))
    return out


def matplot(R, n, limit=200, only=None, types=None, updates=1, mangle=False):
    L = lab(R)
    log = []
    axes_of(L, log)
    o, pts, k = record(L, stream(n))
    v = L.new(DF + "DataFlowVisualizer", "matplotlib", max_points=limit)
    L.do(v, "attach_tracker", o)
    kw = {}
    if only is not None:
        kw["module_names"] = list(only)
    if types is not None:
        kw["data_types"] = list(types)
    L.do(v, "create_streaming_plot", **kw)
    for _ in range(updates):
        L.do(v, "update_plot")
    want = [p for p in pts if (only is None or p[1] in only) and (types is None or p[2] in types)][-limit:]
    vals = by_module(want, lambda p: p[3] + mangle if number(p[3]) else None)

    def size(p):
        s = 1
        for x in p[4]:
            s *= x
        return s
    res = [compare(curves(L, log, "ax0"), vals, "values over the steps"), compare(curves(L, log, "ax1"), by_module(want, size), "sizes over the steps")]
    order = sorted({p[1] for p in want})
    ticks = labels_of(L, log, "ax2")
    if ticks and want:
        res.append(compare(ticks, dict(enumerate(order)), "names of the modules at the activity axis"))
    res.append(compare(sorted(dots(L, log, "ax2")), sorted((p[5], order.index(p[1])) for p in want), "activity of the modules"))
    return worst(res)


def animation(R, n, frames):
    """every frame shows the points of the steps so far; the recorded data are unchanged"""
    L = lab(R)
    log = []
    fig, anim = axes_of(L, log)
    o, pts, k = record(L, stream(n))
    L.do_path = L.call(L.I.global_value(R.p.need(DF + "create_flow_animation")[0], "create_flow_animation"), o, F(frames, 2), 2, "out.gif")
    if len(anim) != 1:
        raise GiveUp("animations created")
    a, kw = anim[0]
    nf = L.I.pyval(L.I.term(kw["frames"], L.st)) if "frames" in kw else None
    res = [L.same(L.do_path, const("out.gif"), "path")]
    if nf is not None:
        res.append(compare(nf, frames, "number of frames"))
    last = pts[-1][0] if pts else 0
    for f in range(frames):
        del log[:]
        L.call(a[1], f)
        cur = f * last // frames
        want = [p for p in pts if p[0] <= cur][-200:]
        if want:
            res.append(compare(curves(L, log, "ax0"), by_module(want, lambda p: p[3] if number(p[3]) else None), f"values of frame {f}"))
        left = list(L.items(L.do(o, "get_recent_data", 1000)))
        got = [(L.I.pyval(L.I.term(L.get(q, "step"), L.st)), L.I.pyval(L.I.term(L.get(q, "module_name"), L.st)), L.I.pyval(L.I.term(L.get(q, "timestamp"), L.st))) for q in left]
        res.append(compare(got, [(p[0], p[1], p[5]) for p in pts], f"recorded data after frame {f}"))
    return worst(res)


# --------------------------------------------------------------------------- notebook
def notebook(L, log):
    m = JV[:-1]
    figs = []

    def fig(I, a, k, s):
        figs.append(Figure(f"fig{len(figs)}", log))
        return figs[-1]
    for nm, v in (("go", Surface("go", log, {"FigureWidget": Py("FigureWidget", fig)})), ("make_subplots", Py("make_subplots", fig)), ("HAS_PLOTLY", TRUE), ("HAS_WIDGETS", TRUE)):
        L.I.gcache[(m, nm)] = v
    return figs


def streams(R, n, limit, mangle=False):
    """every stream of every figure shows its newest points"""
    L = lab(R)
    figs = notebook(L, [])
    v = L.new(JV + "StreamingDataVisualizer", L.new(JV + "JupyterVizConfig", max_history_points=limit))
    fs = [L.do(v, "create_streaming_plot") for _ in range(2)]
    names = [("s", "t"), ("s", "u")]
    want = {}
    for i, f in enumerate(fs):
        for nm in names[i]:
            L.do(v, "add_stream", f, nm)
            want[i, nm] = []
    for j in range(n):
        i = j % 2 if j % 7 else 1 - j % 2
        nm = names[i][(j // 2) % 2]
        t = (0 if j % 4 == 1 else 10 * j) if j % 3 else None
        L.now[:] = [const(1000 + j)]
        L.do(v, "update_stream", fs[i], nm, sym(f"y{j}"), *([t] if t is not None else []))
        want[i, nm].append((const(1000 + j) if t is None else const(t), sym(f"y{j}")))
    res = []
    for i, f in enumerate(figs[:2]):
        for tr in f.traces:
            nm = L.I.pyval(L.I.term(tr.attrs["name"], L.st))
            w = want[i, nm][-limit:]
            for c, q in (("x", 0), ("y", 1)):
                got = tr.attrs[c]
                if isinstance(got, Surface):
                    raise GiveUp("trace data")
                got = list(L.items(got))
                if any(isinstance(g, Splat) for g in got):
                    raise GiveUp("elements not known")
                if len(got) != len(w):
                    res.append(violated(f"stream {nm} of figure {i}: {len(got)} points, required {len(w)}"))
                else:
                    res += [L.same(g, p[q] if not mangle else const(-1), f"stream {nm} of figure {i}: {c}") for g, p in zip(got, w)]
    return worst(res + [holds()])


def flow(R, n, mangle=False):
    """the animated flow: every stage shows the newest 50 recorded points of its module"""
    L = lab(R)
    figs = notebook(L, [])
    stages = ["a", "b Data", "c"]
    names = {"a": "a", "b": "b Data", "c": "zz"}
    o, pts, k = record(L, [(names[m], t, v, s) for m, t, v, s in stream(n, numbers=True)])
    v = L.new(JV + "AnimatedPipelineFlow")
    L.do(v, "create_flow_animation", stages, o)
    sleeps = []

    def sleep(I, a, k, s):
        sleeps.append(1)
        I.call(I.getattr(v, "stop_animation", s), [], {}, None, s)
        return NONE

    def thread(I, a, k, s):
        tgt, args = k.get("target", a[1] if len(a) > 1 else None), k.get("args")
        return Py("thread", lambda *q: NONE, {"start": Py("start", lambda I2, b, kw, s2: I2.call(tgt, list(L.items(args)) if args is not None else [], {}, None, s2)), "join": Py("join", lambda *q: NONE)})
    L.I.handlers["time.sleep"] = sleep
    L.I.handlers["threading.Thread"] = thread
    L.do(v, "start_animation", o)
    if not sleeps:
        raise GiveUp("the loop did not run")
    res = []
    recent = pts[-50:]
    for i, tr in enumerate(figs[-1].traces):
        if dict.__contains__(tr.attrs, "row"):
            res.append(L.same(tr.attrs["row"], const(i + 1), f"row of stage {stages[i]}"))
    for st, tr in zip(stages, figs[-1].traces):
        w = [(p[0], p[3]) for p in recent if p[1] == st]
        for c, q in (("x", 0), ("y", 1)):
            got = list(L.items(tr.attrs[c]))
            res.append(compare([L.I.pyval(L.I.term(g, L.st)) for g in got], [p[q] + mangle for p in w], f"stage {st}: {c}"))
    return worst(res)


def controls(R, mangle=False):
    """the values of the controls reach every callback"""
    L = lab(R)
    log = []
    notebook(L, log)
    made = []

    def widget(kind):
        def f(I, a, k, s):
            w = Surface(kind, log, dict(k))
            w.watch = []
            w.attrs["observe"] = Py("observe", lambda I2, b, kw, s2: (w.watch.append(b[0]), NONE)[1])
            made.append((kind, w))
            return w
        return Py(kind, f)
    kinds = ("FloatSlider", "IntSlider", "Checkbox", "Dropdown", "VBox", "Layout")
    L.I.gcache[(JV[:-1], "widgets")] = Surface("widgets", log, {k: widget(k) for k in kinds})
    v = L.new(JV + "InteractiveParameterControls")
    spec = {"lr": {"type": "float", "min": 0, "max": F(1, 2), "value": F(1, 4), "step": F(1, 8)}, "n": {"type": "int", "value": 7, "min": 2, "max": 9}, "on": {"type": "bool", "value": True}, "note": {"type": "text", "value": "hello"}, "kind": {"type": "dropdown", "options": ["u", "v"], "value": "v"}, "w": {"type": "float"}, "first": {"type": "dropdown", "options": ["p", "q"]}}
    box = L.do(v, "create_parameter_panel", spec)
    want = {"lr": const(F(1, 4)), "n": const(7), "on": TRUE, "kind": const("v"), "w": const(F(1, 2)), "first": const("p")}
    res = [L.same_tree(L.do(v, "get_parameters"), want, "parameters")]
    ctl = [(k, w) for k, w in made if k not in ("VBox", "Layout")]
    res.append(compare([k for k, _ in ctl], ["FloatSlider", "IntSlider", "Checkbox", "Dropdown", "FloatSlider", "Dropdown"], "controls"))
    res += [compare(len(w.watch), 1, f"observers of control {i}") for i, (_, w) in enumerate(ctl)]
    for nm, w in (("min", ZERO), ("max", const(F(1, 2))), ("step", const(F(1, 8))), ("description", const("lr"))):
        res.append(L.same(ctl[0][1].attrs[nm], w, nm))
    for nm, w in (("min", const(2)), ("max", const(9))):
        res.append(L.same(ctl[1][1].attrs[nm], w, nm))
    got = []

    def cb(fail):
        def f(I, a, k, s):
            d = I.get(s, a[0])
            got.append((fail, {(k_.args[0] if isinstance(k_, T) else k_): y for k_, y in d.d.items()}))
            if fail:
                raise AbsRaise("ValueError")
            return NONE
        return Py("callback", f)
    L.do(v, "add_callback", cb(False))
    L.do(v, "add_callback", cb(True))
    L.do(v, "add_callback", cb(False))
    ctl[1][1].attrs["value"] = const(5)
    for f in ctl[1][1].watch:
        L.call(f, {"new": 5})
    if len(got) != 3:
        return violated(f"{len(got)} callbacks called, required 3")
    want["n"] = const(5 + mangle)
    for _, g in got:
        res += [L.same(g[x], y, f"callback parameter {x}") if x in g else violated(f"no parameter {x}") for x, y in want.items()]
    return worst(res)


# --------------------------------------------------------------------------- bokeh
def bokeh(L, log):
    m = BV[:-1]
    figs = []

    def fig(I, a, k, s):
        figs.append(Surface(f"fig{len(figs)}", log, {"renderers": Tup([])}))
        return figs[-1]

    def source(I, a, k, s):
        return Surface("source", log, {"data": k.get("data", a[0] if a else NONE)})
    for nm in ("HoverTool", "LinearColorMapper", "ColorBar", "BasicTicker", "PrintfTickFormatter", "transform", "gridplot", "column", "row", "output_notebook", "Viridis256", "Div"):
        L.I.gcache[(m, nm)] = Surface(nm, log)
    for nm, v in (("figure", Py("figure", fig)), ("ColumnDataSource", Py("ColumnDataSource", source)), ("HAS_BOKEH", TRUE)):
        L.I.gcache[(m, nm)] = v
    return figs


def bokeh_stream(R, n, limit, mangle=False):
    L = lab(R)
    log = []
    bokeh(L, log)
    v = L.new(BV + "BokehStreamingPlot", L.new(BV + "BokehVizConfig", max_points=limit))
    p = L.do(v, "create_streaming_line_plot")
    src = {nm: L.do(v, "add_line_stream", p, nm) for nm in ("s", "t")}
    want = {"s": [], "t": []}
    for j in range(n):
        nm = "st"[j % 3 == 1]
        L.do(v, "update_stream", nm, sym(f"x{j}"), sym(f"y{j}"))
        want[nm].append((sym(f"x{j}"), sym(f"y{j}")))
    res = []
    for nm, s in src.items():
        e = L.entries(s.attrs["data"])
        w = want[nm][-limit:]
        for c, q in (("x", 0), ("y", 1)):
            got = list(L.items(e[c]))
            if len(got) != len(w):
                res.append(violated(f"stream {nm}: {len(got)} points, required {len(w)}"))
            else:
                res += [L.same(g, y[q] if not mangle else const(-1), f"stream {nm}: {c}") for g, y in zip(got, w)]
    return worst(res + [holds()])


def bokeh_panels(R, n, mangle=False):
    """the time series of every module (newest 200 points) and the distribution (newest 500)"""
    L = lab(R)
    log = []
    figs = bokeh(L, log)
    o, pts, k = record(L, stream(n))
    hists = []
    none = lambda what: (lambda I, a, k, s: Surface(what, []))
    for h in ("numpy.random.exponential", "numpy.random.rand", "jax.numpy.random.exponential", "jax.numpy.random.rand"):
        L.I.handlers[h] = lambda I, a, k, s: sym("noise", array=1)
    for h in ("numpy.histogram", "jax.numpy.histogram"):
        L.I.handlers[h] = lambda I, a, k, s: (hists.append(a[0]), Tup([sym("counts"), nd.build((3,), [sym("e0"), sym("e1"), sym("e2")])]))[1]
    v = L.new(BV + "BokehMultiPanelDashboard")
    ts = L.do(v, "_create_time_series_panel", o)
    L.do(v, "_create_distribution_panel", o)
    got = {"line": {}, "circle": {}}
    for nm, a, kw in log:
        for c in got:
            if nm == f"{ts.name}.{c}":
                xs, ys = plain(L, a[0]), plain(L, a[1])
                key = L.I.pyval(L.I.term(kw["legend_label"], L.st)) if "legend_label" in kw else len(got[c])
                got[c][key] = list(zip(xs, ys))
    want = by_module(pts[-200:], lambda p: p[3] + mangle if number(p[3]) else None)
    res = [compare(got["line"], want, "time series")]
    nums = [p[3] for p in pts[-500:] if number(p[3])]
    if nums:
        if len(hists) != 1:
            raise GiveUp("histograms")
        res.append(compare(plain(L, hists[0]), nums, "values of the distribution"))
    return worst(res)


def heatmap(R, h, w, mangle=False):
    """every value of the data in its own cell, the colours from the smallest to the largest value"""
    L = lab(R)
    log = []
    bokeh(L, log)
    I = L.I
    srcs, scale = [], []

    def source(I, a, k, s):
        d = I.get(s, k.get("data", a[0] if a else None)).d
        srcs.append({(c.args[0] if isinstance(c, T) else c): list(I.iter_items(v, s)) for c, v in d.items()})
        return Surface("source", log)

    def mapper(I, a, k, s):
        scale.append((I.term(k["low"], s), I.term(k["high"], s)))
        return Surface("mapper", log)

    def grid(I, a, k, s):
        x, y = (list(I.iter_items(v, s)) for v in a)
        if k:
            raise GiveUp("meshgrid options")
        n = (len(y), len(x))
        return Tup([nd.build(n, [I.term(p, s) for _ in y for p in x]), nd.build(n, [I.term(q, s) for q in y for _ in x])])
    for p in ("numpy", "jax.numpy"):
        I.handlers[p + ".meshgrid"] = grid
    I.gcache[(BV[:-1], "ColumnDataSource")] = Py("ColumnDataSource", source)
    I.gcache[(BV[:-1], "LinearColorMapper")] = Py("LinearColorMapper", mapper)
    cells = {(i, j): 7 * i + 5 * j - 9 * (j % 2) for i in range(h) for j in range(w)}
    v = L.new(BV + "BokehHeatmapVisualizer")
    L.do(v, "create_state_heatmap", nd.build((h, w), [const(cells[i, j]) for i in range(h) for j in range(w)]))
    if len(srcs) != 1 or not {"x", "y", "values"} <= set(srcs[0]):
        raise GiveUp("data of the heatmap")
    num = lambda xs: [I.pyval(I.term(x, L.st)) for x in xs]
    got = sorted(zip(num(srcs[0]["x"]), num(srcs[0]["y"]), num(srcs[0]["values"])))
    res = [compare(got, sorted((j, i, c + mangle) for (i, j), c in cells.items()), "cells")]
    if len(scale) == 1:
        res += [L.same(scale[0][0], const(min(cells.values())), "lowest colour"), L.same(scale[0][1], const(max(cells.values())), "highest colour")]
    return worst(res)


@prop("W94")
def plots(R):
    R.total = True
    w = where_(R, DF + "DataFlowVisualizer")
    R.rule("text", "the text plot lists the newest ten of the newest twenty recorded points of the modules and types asked for, with step, module, type and value, and counts them; saving writes the same text")
    R.rule("figure", "the matplotlib plot shows per module the values (numbers) and the sizes over the steps and every point at its time, of the newest max_points points of the modules and types asked for; an update repeats nothing; an animation shows in each frame the points of the steps so far and leaves the recorded data as they were")
    R.rule("notebook", "a stream of a notebook or bokeh figure shows its own newest points in order, the animated flow per stage the newest 50 recorded points, the panels of the bokeh dashboard the numbers recorded; parameter controls hand all current values to every callback; a heatmap shows every value in its own cell, the colours from the smallest to the largest")
    for n in (0, 1, 9, 10, 11, 19, 20, 21, 40):
        R.ob("text", f"{n} points", lambda: text(R, n), w)
    R.ob("text", "limited history", lambda: text(R, 30, 7), w)
    R.ob("text", "saved", lambda: text(R, 12, save=True), w)
    for only, types in ((("a",), None), (None, ("output",)), (("a", "c"), ("input", "state")), ((), None), (None, ())):
        R.ob("text", f"modules {only} types {types}", lambda: text(R, 50, only=only, types=types), w)
    R.control(lambda: text(R, 9, mangle=True))
    for n in (0, 1, 2, 11, 40):
        R.ob("figure", f"{n} points", lambda: matplot(R, n), w)
    R.ob("figure", "newest points", lambda: matplot(R, 40, 17, updates=2), w)
    for only, types in ((("a",), None), (None, ("output",)), (("a", "c"), ("input", "state"))):
        R.ob("figure", f"modules {only} types {types}", lambda: matplot(R, 40, 9, only=only, types=types), w)
    R.control(lambda: matplot(R, 11, mangle=True))
    for n, f in ((1, 2), (7, 3), (20, 4)):
        R.ob("figure", f"animation of {n} points in {f} frames", lambda: animation(R, n, f), w)
    w = where_(R, JV + "StreamingDataVisualizer")
    for n, lim in ((0, 3), (1, 3), (12, 100), (40, 5)):
        R.ob("notebook", f"streams, {n} updates, limit {lim}", lambda: streams(R, n, lim), w)
        R.ob("notebook", f"bokeh streams, {n} updates, limit {lim}", lambda: bokeh_stream(R, n, lim), where_(R, BV + "BokehStreamingPlot"))
    R.control(lambda: streams(R, 12, 5, True))
    R.control(lambda: bokeh_stream(R, 12, 5, True))
    for n in (1, 12, 70):
        R.ob("notebook", f"flow of {n} points", lambda: flow(R, n), where_(R, JV + "AnimatedPipelineFlow"))
    R.control(lambda: flow(R, 12, True))
    R.ob("notebook", "controls", lambda: controls(R), where_(R, JV + "InteractiveParameterControls"))
    R.control(lambda: controls(R, True))
    for h, w_ in ((1, 1), (2, 3), (3, 2)):
        R.ob("notebook", f"heatmap {h}x{w_}", lambda: heatmap(R, h, w_), where_(R, BV + "BokehHeatmapVisualizer"))
    R.control(lambda: heatmap(R, 2, 3, True))
    for n in (0, 1, 12, 260):
        R.ob("notebook", f"bokeh panels of {n} points", lambda: bokeh_panels(R, n), where_(R, BV + "BokehMultiPanelDashboard"))
    R.control(lambda: bokeh_panels(R, 12, True))
