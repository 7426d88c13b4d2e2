"""State patterns of the Flax streaming core: composition, conditional update, state machines, attention history."""
from fractions import Fraction

from . import prop
from ..interp import Arr, Interp, NONE, PDict, PList, Py, S, Tup
from ..judge import *
from ..terms import *
from .r10_windows import where_

ST = "wax.flax.core.streaming_transforms."
AD = "wax.flax.core.advanced_state_patterns."
x = sym("x", fixed=1)


def flags(I):
    I.scalars = I.scalar_items = I.concrete = I.plain_values = True


def lift(I, st, v):
    """Python containers as abstract ones"""
    if isinstance(v, dict):
        return I.alloc(st, PDict({k: lift(I, st, y) for k, y in v.items()}))
    if isinstance(v, list):
        return I.alloc(st, PList([lift(I, st, y) for y in v]))
    if type(v) is tuple:
        return Tup([lift(I, st, y) for y in v])
    if v is None:
        return mk("obj", None)
    return const(v) if isinstance(v, (str, int, float, Fraction)) else v


def call(R, d, cfg, args, kw=None, store=None, before=None, method=None):
    def setup(I, st, a, k, c):
        flags(I)
        if before:
            before(I, st)
        return [lift(I, st, y) for y in a], {n: lift(I, st, y) for n, y in k.items()}, {n: lift(I, st, y) for n, y in c.items()}

    return run_module(R, d, cfg, args, kw or {}, store=store, setup=setup, method=method)


def module(nm, log=None):
    """an opaque module: its output is a free function of its arguments"""
    def f(I, a, kw, s):
        if log is not None:
            log.append(nm)
        return mk("app", "MOD" + nm.upper(), *[I.term(y, s) for y in a], *[t for k in sorted(kw) for t in (const(k), I.term(kw[k], s))])

    return Py("module " + nm, f)


def out(nm, *a, **kw):
    return mk("app", "MOD" + nm.upper(), *a, *[t for k in sorted(kw) for t in (const(k), kw[k])])


def entries(s, v=None):
    """{name: value} of a returned dictionary, in order"""
    v = s.out if v is None else v
    p = s.I.get(s.st, v)
    return {(k.args[0] if isinstance(k, T) else k): y for k, y in p.d.items()}


def same_entries(R, s, want, v=None):
    got = entries(s, v)
    if list(got) != list(want):
        return violated(f"entries {list(got)}, required {list(want)}")
    return worst([eq_struct(R, s.I, s.st, got[k], w, (), f"entry {k}") for k, w in want.items()])


# --------------------------------------------------------------------------- composition and conditional update
def hierarchical_state(R, names, deps, inputs, swap=False):
    s = call(R, ST + "HierarchicalState", {"modules": {n: module(n) for n in names}, **({"dependencies": deps} if deps is not None else {})}, [], inputs)
    want = {}
    for n in names:
        kw = {d: want[d] for d in (deps or {}).get(n, ()) if d in want}
        if swap:
            kw = {}
        kw.update(inputs)
        want[n] = out(n, **kw)
    return same_entries(R, s, want)


def conditional(R, cond, nargs, neg=False, named=False):
    """module called exactly when the condition holds; else the first argument, state untouched"""
    log = []

    kws = {"c": sym("c", fixed=1)} if named else {}
    told = lambda kw: [t for k in sorted(kw) for t in (const(k), kw[k])]

    def mod(I, a, kw, s):
        log.append(list(a))
        return mk("app", "MODA", *a, *told(kw))

    args = [sym(f"x{i}", fixed=1) for i in range(nargs)]
    wrong = []
    s = call(R, ST + "ConditionalStateUpdate", {"module": Py("module", mod), "condition_fn": Py("condition", lambda I, a, k, st: const(cond) if (a, k) == (args, kws) else wrong.append((a, k)) or mk("app", "OTHERCOND", *a))}, args, kws)
    if wrong:
        return violated(f"the condition is asked about {wrong[0]}, required {(args, kws)}")
    if len(log) != (1 if cond else 0):
        return violated(f"the module ran {len(log)} times although the condition is {cond}")
    return eq_struct(R, s.I, s.st, s.out, out("a", *args, **kws) if cond != neg else args[0] if args else ZERO, ())


def machine(R, names, trans, init, cur, truth, shift=False):
    """one step from state `cur` with the given truth of every transition condition"""
    seen = []

    def cond(a, b):
        def f(I, args, k, s):
            if args == [x] and not k:
                return const(truth[a, b])
            seen.append((args, k))
            return mk("app", "OTHERCOND", *args)

        return Py(f"{a}->{b}", f)

    cfg = {"states": {n: module(n) for n in names}, "transitions": {a: {b: cond(a, b) for b in bs} for a, bs in trans.items()}, "initial_state": init}
    first = call(R, ST + "StreamingStateMachine", cfg, [x])
    slots = dict(first.I.slot_init)
    if len(slots) != 1:
        return undecided(f"state slots {sorted(slots)}")
    (key, start), = slots.items()
    s = call(R, ST + "StreamingStateMachine", cfg, [x], store={key: start if cur is None else const(cur)})
    if seen:
        return violated(f"a transition condition is asked about {seen[0]}, required the arguments {[x]}")
    cur = init if cur is None else cur
    nxt = next((b for b in trans.get(cur, ()) if truth[cur, b]), cur)
    if shift:
        nxt = cur
    o = s.I.unpack(s.out, 2, s.st)
    rs = [eq_struct(R, s.I, s.st, o[0], out(cur, x), (), "output"), same_name(o[1], nxt, "returned state")]
    rs.append(same_name(s.st.store[key], nxt, "stored state"))
    return worst(rs)


def same_name(v, name, what):
    if isinstance(v, T) and v.op == "obj" and isinstance(v.args[0], str):
        return holds() if v.args[0] == name else violated(f"{what} {v.args[0]!r}, required {name!r}")
    return undecided(f"{what} {v}")


@prop("W46")
def patterns(R):
    R.total = True
    R.rule("hierarchical", "HierarchicalState runs its modules once each in the given order; a module receives the outputs computed so far of its declared dependencies and the initial inputs (which win), all by name")
    R.rule("conditional", "ConditionalStateUpdate runs the module with the given arguments exactly when the condition holds for them; otherwise it returns its first argument and the module does not run")
    R.rule("machine", "StreamingStateMachine runs the module of the current state; the next state is that of the first transition of the current state whose condition holds for the arguments, else the current one; it is returned and stored; it starts in initial_state")
    d = ST + "HierarchicalState"
    w = where_(R, d)
    u = {"u": sym("u", fixed=1)}
    for names, deps, inputs in ((["a", "b"], None, u), (["a", "b"], {"b": ["a"]}, u), (["b", "a"], {"b": ["a"]}, u), (["a", "b", "c"], {"c": ["a", "b"], "b": ["a"]}, {**u, "v": sym("v", fixed=1)}), (["a", "b"], {"b": ["a"]}, {"a": sym("u", fixed=1)}), (["a"], {"a": ["a", "zz"]}, u)):
        R.ob("hierarchical", f"{d}[{names},{deps},inputs {sorted(inputs)}]", lambda: hierarchical_state(R, names, deps, inputs), w)
    R.control(lambda: hierarchical_state(R, ["a", "b"], {"b": ["a"]}, u, True))
    d = ST + "ConditionalStateUpdate"
    w = where_(R, d)
    for c in (True, False):
        for n in (0, 1, 2):
            R.ob("conditional", f"{d}[condition {c},{n} arguments]", lambda: conditional(R, c, n), w)
        R.ob("conditional", f"{d}[condition {c},one more by name]", lambda: conditional(R, c, 1, named=True), w)
    R.control(lambda: conditional(R, True, 1, True))
    d = ST + "StreamingStateMachine"
    w = where_(R, d)
    names, trans = ["a", "b", "c"], {"a": ["b", "c"], "b": ["a"]}
    edges = [(p, q) for p, qs in trans.items() for q in qs]
    for cur in (None, "a", "b", "c"):
        for m in range(2 ** len(edges)):
            truth = {e: bool(m >> i & 1) for i, e in enumerate(edges)}
            R.ob("machine", f"{d}[from {cur or 'the start'},{[f'{p}->{q}' for (p, q), t in truth.items() if t]}]", lambda: machine(R, names, trans, "a", cur, truth), w)
    R.ob("machine", f"{d}[initial state b]", lambda: machine(R, names, trans, "b", None, {e: True for e in edges}), w)
    R.control(lambda: machine(R, names, trans, "a", "a", {e: True for e in edges}, True))
    R.rule("decorators", "conditional_update, state_machine and hierarchical_composition run the patterns with the given condition, functions, transitions, initial state and modules")
    for c in (True, False):
        R.ob("decorators", f"conditional_update[condition {c}]", lambda: deco_conditional(R, c), where_(R, ST + "conditional_update"))
    R.control(lambda: deco_conditional(R, True, True))
    for i in ("a", "b"):
        for t in (True, False):
            R.ob("decorators", f"state_machine[from {i},transition {t}]", lambda: deco_machine(R, i, {("a", "c"): False, ("a", "b"): t, ("b", "c"): t}), where_(R, ST + "state_machine"))
    R.control(lambda: deco_machine(R, "a", {("a", "b"): True}, True))
    for n in ("ab", "ba", "c"):
        R.ob("decorators", f"hierarchical_composition[{list(n)}]", lambda: deco_hierarchy(R, n), where_(R, ST + "hierarchical_composition"))
    R.control(lambda: deco_hierarchy(R, "ab", True))


# --------------------------------------------------------------------------- coordinated machines
def order(R, names, deps, rev=False):
    log = []
    cfg = {"state_modules": {n: module(n, log) for n in names}, **({"dependencies": deps} if deps is not None else {})}
    s = call(R, AD + "HierarchicalStateMachine", cfg, [x])
    if sorted(log) != sorted(names):
        return violated(f"state modules run: {log}, required each of {names} once")
    if rev:
        log.reverse()
    bad = [(p, q) for i, p in enumerate(log) for q in (deps or {}).get(p, ()) if q in log[i + 1:]]
    if bad and not cyclic(names, deps):
        return violated(f"{bad[0][0]} runs before {bad[0][1]}, on which it depends (order {log})")
    got = entries(s)
    if sorted(got) != sorted(names):
        return violated(f"entries {sorted(got)}, required {sorted(names)}")
    return worst([eq_struct(R, s.I, s.st, got[n], out(n, x), (), f"entry {n}") for n in names])


def cyclic(names, deps):
    done = set()
    while True:
        more = {n for n in names if n not in done and all(q in done or q not in names for q in (deps or {}).get(n, ()))}
        if not more:
            return done != set(names)
        done |= more


def unordered_iteration(R, cls):
    """places in a class where the order of a set becomes an order of the result (it depends on the hash seed)"""
    import ast

    from .r89_order import order as set_order

    mod, node = R.p.need(cls)
    for f in node.body:
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield from ((mod, f, *b) for b in set_order(R.p, mod, f)[0])


def blend(R, names, deps, keys, mangle=False):
    """hierarchical coordination: the entries shared with an already coordinated state of a higher level are blended 9:1, level by level"""
    def mod(n):
        def f(I, a, kw, s):
            return I.alloc(s, PDict({k: mk("app", f"OUT{n.upper()}{k.upper()}", *a) for k in keys[n]}))

        return Py(n, f)

    cfg = {"state_modules": {n: mod(n) for n in names}, "dependencies": deps, "coordination_strategy": "hierarchical"}
    s = call(R, AD + "HierarchicalStateMachine", cfg, [x])

    def depth(n, seen=()):
        if n in seen or not deps.get(n):
            return 0
        return 1 + max(depth(q, (*seen, n)) for q in deps[n])

    levels = {}
    for n in names:
        levels.setdefault(depth(n), []).append(n)
    done = {}
    for lv in sorted(levels):
        for n in levels[lv]:
            o = {k: mk("app", f"OUT{n.upper()}{k.upper()}", x) for k in keys[n]}
            for l2 in range(lv):
                for h in levels.get(l2, []):
                    if h in done:
                        o = {k: mk("add", mk("mul", const(0.9), v), mk("mul", const(0.1), done[h][k])) if k in done[h] and not mangle else v for k, v in o.items()}
            done[n] = o
    got = entries(s)
    if sorted(got) != sorted(done):
        return violated(f"entries {sorted(got)}, required {sorted(done)}")
    rs = []
    for n, o in done.items():
        g = entries(s, got[n])
        if sorted(g) != sorted(o):
            return violated(f"entry {n} has keys {sorted(g)}, required {sorted(o)}")
        rs += [eq_struct(R, s.I, s.st, g[k], v, (), f"{n}.{k}") for k, v in o.items()]
    return worst(rs)


def input_kept(R):
    """a module may return the mapping it was given: coordinating the outputs leaves the caller's mapping as it is"""
    seen = []
    mods = {"a": Py("a", lambda I, a, kw, s: I.alloc(s, PDict({"p": mk("app", "OUTAP", sym("p0", fixed=1))}))), "b": Py("b", lambda I, a, kw, s: seen.append(a[0]) or a[0])}
    s = call(R, AD + "HierarchicalStateMachine", {"state_modules": mods, "dependencies": {"b": ["a"]}, "coordination_strategy": "hierarchical"}, [{"p": sym("p0", fixed=1)}])
    given = entries(s, seen[0])
    got = entries(s, entries(s)["b"])
    return worst([eq_struct(R, s.I, s.st, given["p"], sym("p0", fixed=1), (), "the caller's mapping"), eq_struct(R, s.I, s.st, got["p"], mk("add", mk("mul", const(0.9), sym("p0", fixed=1)), mk("mul", const(0.1), mk("app", "OUTAP", sym("p0", fixed=1)))), (), "entry b")])


def unknown_strategy(R):
    """a strategy that does not exist is refused"""
    from ..interp import AbsRaise

    try:
        s = call(R, AD + "CompositeStateManager", {"state_patterns": {"a": module("a")}, "composition_strategy": "pipelines"}, [x])
    except AbsRaise as e:
        return holds() if "ValueError" in str(e.exc) else violated(f"raises {e.exc}")
    return violated(f"an unknown strategy gives {s.out}")


def failing(R, names, bad):
    """an exception of one state module is confined to its entry"""
    from ..interp import AbsRaise

    def boom(I, a, kw, s):
        raise AbsRaise("ValueError", sure=True)

    cfg = {"state_modules": {n: Py(n, boom) if n == bad else module(n) for n in names}}
    s = call(R, AD + "HierarchicalStateMachine", cfg, [x])
    got = entries(s)
    if sorted(got) != sorted(names):
        return violated(f"entries {sorted(got)}, required {sorted(names)}")
    err = entries(s, got[bad])
    if "error" not in err or not ("status" in err and isinstance(err["status"], T) and err["status"].args == ("failed",)):
        return violated(f"the entry of the failed state is {err}")
    return worst([eq_struct(R, s.I, s.st, got[n], out(n, x), (), f"entry {n}") for n in names if n != bad])


def composite(R, strategy, names, kinds, data, mangle=False):
    """kinds[n]: 'array' or the list of keys of the dictionary the pattern returns"""
    def spec(n, arg):
        t = tuple(y for k in sorted(arg) for y in (const(k), arg[k])) if isinstance(arg, dict) else (arg,)
        if kinds[n] == "array":
            return mk("app", "PAT" + n.upper(), *t)
        return {k: mk("app", f"PAT{n.upper()}{k.upper()}", *t) for k in kinds[n]}

    def pat(n):
        def f(I, a, kw, s):
            v = a[0]
            if isinstance(v, Ref) and isinstance(I.get(s, v), PDict):
                if I.get(s, v).rest is not None:
                    raise GiveUp("a pattern is given an open mapping")
                v = {(k.args[0] if isinstance(k, T) else k): y for k, y in I.get(s, v).d.items()}
            r = spec(n, v)
            return lift(I, s, r)

        return Py(n, f)

    s = call(R, AD + "CompositeStateManager", {"state_patterns": {n: pat(n) for n in names}, **({"composition_strategy": strategy} if strategy else {})}, [data])
    cur, want = data, {}
    for n in names:
        o = want[n] = spec(n, cur)
        if strategy in (None, "pipeline"):
            cur = {**cur, **o} if isinstance(o, dict) and isinstance(cur, dict) and not mangle else o
        elif strategy == "hierarchical" and isinstance(o, dict) and "influence" in o:
            cur = o["influence"]
    got = entries(s)
    if list(got) != list(want):
        return violated(f"entries {list(got)}, required {list(want)}")
    rs = []
    for n, o in want.items():
        if isinstance(o, dict):
            g = entries(s, got[n])
            rs += [violated(f"entry {n} has keys {sorted(g)}")] if sorted(g) != sorted(o) else [eq_struct(R, s.I, s.st, g[k], v, (), f"{n}.{k}") for k, v in o.items()]
        else:
            rs.append(eq_struct(R, s.I, s.st, got[n], o, (), f"entry {n}"))
    return worst(rs)


def attention(R, E, H, dims, n, use=True, late=0, ask=None):
    """history = the earlier embeddings, oldest first, at most H of them; a tenth of the attended vector is added"""
    made = []

    def dense(I, a, k, st):
        made.append(len(made))
        j = made[-1] % 2
        f = a[0] if a else k.get("features")
        m = int(f.args[0])

        def go(I2, b, kw, s):
            v = b[0]
            while isinstance(v, Arr) and len(v.items) == 1 and isinstance(v.items[0], Arr):
                v = v.items[0]
            r = Arr([mk("app", f"DENSE{'AB'[j]}{'ABCDEFGH'[i]}", *[t for _, t in leaves_of(v, I2, s)]) for i in range(m)])
            d = 0
            v = b[0]
            while isinstance(v, Arr) and isinstance(v.items[0], Arr):
                v, d = v.items[0], d + 1
            for _ in range(d):
                r = Arr([r])
            return r

        return Py("dense", go)

    def mha(I, a, k, st):
        def go(I2, b, kw, s):
            names = ["inputs_q", "inputs_k", "inputs_v"]
            b = list(b) + [kw[nm] for nm in names[len(b):] if nm in kw]
            ls = [[t for _, t in leaves_of(v, I2, s)] for v in b]
            return Arr([Arr([Arr([mk("app", f"ATT{'ABCDEFGH'[i]}", *[t for l in ls for t in l]) for i in range(E)])])])

        return Py("attention", go)

    def before(I, st):
        I.handlers.update({"flax.linen.Dense": dense, "flax.linen.MultiHeadDotProductAttention": mha})

    def value(t):
        return Arr([sym(f"x{t}_{i}", fixed=1) for i in range(dims)]) if dims else sym(f"x{t}", fixed=1, array=1)

    cfg = {"embed_dim": const(E), "max_history_length": const(H)}
    d = AD + "AttentionBasedStateSelector"
    args = [] if use else [FALSE]
    run = lambda t, store: call(R, d, cfg, [value(t)] + args, store=store, before=before)
    first = run(0, None)
    steps = run_chain(run, dict(first.I.slot_init), list(range(n)))
    embs, rs = [], []
    for t, s in enumerate(steps):
        got = entries(s)
        miss = {"enhanced_state", "original_state", "relevant_history", "attention_weights", "current_state"} - set(got)
        if miss:
            return violated(f"no entry {sorted(miss)}")
        v = value(t)
        vec_ = [v] if isinstance(v, T) else list(v.items)
        vec_ = vec_[:E] + [ZERO] * max(0, E - len(vec_))
        emb = [q for _, q in leaves_of(got["original_state"], s.I, s.st)]
        j = "A" if emb and emb[0].op == "app" and emb[0].args[0].startswith("DENSEA") else "B"
        want = [mk("app", f"DENSE{j}{'ABCDEFGH'[i]}", *vec_) for i in range(E)]
        rs.append(eq_struct(R, s.I, s.st, got["original_state"], want, (), f"embedding {t + 1}"))
        hist = embs[-H - late:][:H] if late else embs[-H:]
        if len(embs) > 1 and use:
            q = [mk("app", f"DENSE{'B' if j == 'A' else 'A'}{'ABCDEFGH'[i]}", *want) for i in range(E)]
            flat = [y for r in hist for y in r]
            att = [mk("app", f"ATT{'ABCDEFGH'[i]}", *q, *flat, *flat) for i in range(E)]
            rs.append(eq_struct(R, s.I, s.st, got["relevant_history"], hist, (), f"history at call {t + 1}"))
            rs.append(eq_struct(R, s.I, s.st, got["attention_weights"], [mk("div", ONE, const(len(hist)))] * len(hist), (), f"weights at call {t + 1}"))
            rs.append(eq_struct(R, s.I, s.st, got["enhanced_state"], [mk("add", e, mk("mul", const(0.1), g)) for e, g in zip(want, att)], (), f"enhanced state at call {t + 1}"))
        else:
            rs.append(eq_struct(R, s.I, s.st, got["enhanced_state"], want, (), f"enhanced state at call {t + 1}"))
        embs.append(want)
        if rs[-1].status == "violated":
            break
        if ask is not None:
            q = call(R, d, cfg, [value(t + 100)], {} if ask == "default" else {"top_k": const(ask)}, store=s.st.store, before=before, method="get_relevant_states")
            kept = embs[-H:]
            k = min(5 if ask == "default" else ask, len(kept))
            rs.append(eq_struct(R, q.I, q.st, q.out, [kept[:k], [mk("div", ONE, const(len(kept)))] * k], (), f"states asked for after call {t + 1}"))
            changed = [key for key in s.st.store if s.st.store[key] is not q.st.store.get(key)]
            if any(k_ for k_ in changed if "history" in str(k_)):
                rs.append(violated("asking for states changes the history"))
    return worst(rs)


@prop("W47")
def coordinated(R):
    R.total = True
    R.rule("order", "HierarchicalStateMachine runs every state module once with the given arguments, each after those it depends on (unless they depend on each other), and returns one entry per state")
    R.rule("deterministic-order", "the execution order does not depend on the iteration order of a set")
    R.rule("coordinate", "'hierarchical' coordination blends 9:1 the entries a state shares with every already coordinated state of a higher level, level by level")
    R.rule("confined-failure", "an exception of one state module yields an error entry for it and leaves the other entries as they are")
    R.rule("composite", "CompositeStateManager: 'pipeline' feeds each pattern the previous output (merged into the input when both are dictionaries), 'parallel' feeds all the same input, 'hierarchical' switches to an output's 'influence' entry")
    R.rule("attention", "AttentionBasedStateSelector attends from the current embedding to the earlier ones (at most max_history_length, oldest first, from two on), returns them with uniform weights and adds a tenth of the attended vector; otherwise the embedding is unchanged")
    R.rule("ask", "get_relevant_states returns the first top_k of the embeddings kept (oldest first) with uniform weights over those kept, and changes nothing")
    d = AD + "HierarchicalStateMachine"
    w = where_(R, d)
    for names, deps in ((["a", "b"], None), (["a", "b"], {"a": ["b"]}), (["a", "b", "c", "d"], {"a": ["b"], "b": ["c"], "d": ["a"]}), (["a", "b", "c"], {"a": ["c"], "b": ["c"]}), (["c", "a", "b"], {"c": ["a", "b"], "b": ["zz"]}), (["a", "b"], {"a": ["b"], "b": ["a"]}), (["a", "b", "c"], {"a": ["b"], "b": ["a"], "c": ["a"]}), (["a"], {"a": ["a"]})):
        R.ob("order", f"{d}[{names},{deps}]", lambda: order(R, names, deps), w)
    R.control(lambda: order(R, ["a", "b"], {"a": ["b"]}, True))

    def seed_free():
        bad = list(unordered_iteration(R, d))
        if bad:
            m, f, n, what = bad[0]
            return violated(f"{f.name}: {what}", f"{m.rel}:{n.lineno}")
        return holds()

    R.ob("deterministic-order", d, seed_free, w)
    for names, deps, keys in ((["a", "b"], {"b": ["a"]}, {"a": ["p", "q"], "b": ["q", "r"]}), (["b", "a"], {"b": ["a"]}, {"a": ["p"], "b": ["p"]}), (["a", "b", "c"], {"b": ["a"], "c": ["b"]}, {"a": ["p"], "b": ["p"], "c": ["p"]}), (["a", "b", "c"], {"c": ["a", "b"]}, {"a": ["p"], "b": ["p", "q"], "c": ["p", "q"]}), (["a", "b", "c", "d"], {"b": ["a"], "c": ["b"], "d": ["b", "c"]}, {"a": ["p"], "b": ["p"], "c": ["p"], "d": ["p"]})):
        R.ob("coordinate", f"{d}[{names},{deps}]", lambda: blend(R, names, deps, keys), w)
    R.control(lambda: blend(R, ["a", "b"], {"b": ["a"]}, {"a": ["p"], "b": ["p"]}, True))
    R.ob("coordinate", f"{d}[a module returns its input]", lambda: input_kept(R), w)
    for bad in ("a", "b", "c"):
        R.ob("confined-failure", f"{d}[failing {bad}]", lambda: failing(R, ["a", "b", "c"], bad), w)
    d = AD + "CompositeStateManager"
    w = where_(R, d)
    for strat in (None, "pipeline", "parallel", "hierarchical"):
        for kinds, data in (({"a": "array", "b": "array"}, x), ({"a": ["p", "influence"], "b": ["q"], "c": "array"}, {"p": x, "z": sym("z", fixed=1)}), ({"a": "array", "b": ["influence"], "c": ["p"]}, x)):
            R.ob("composite", f"{d}[{strat or 'default'},{kinds},{'dict' if isinstance(data, dict) else 'array'}]", lambda: composite(R, strat, sorted(kinds), kinds, data), w)
    R.ob("composite", f"{d}[unknown strategy]", lambda: unknown_strategy(R), w)
    R.control(lambda: composite(R, "pipeline", ["a", "b"], {"a": ["p"], "b": "array"}, {"p": x, "z": sym("z", fixed=1)}, True))
    d = AD + "AttentionBasedStateSelector"
    w = where_(R, d)
    for E, H, dims in ((2, 3, 2), (2, 2, 1), (2, 3, 3), (2, 4, 1), (3, 2, 0)):
        R.ob("attention", f"{d}[embed_dim={E},max_history_length={H},{dims or 'scalar'} components]", lambda: attention(R, E, H, dims, 2 * H + 2), w)
    for E, H, ask in ((2, 3, "default"), (2, 7, "default"), (2, 3, 2), (2, 2, 1)):
        R.ob("ask", f"{d}[max_history_length={H}].get_relevant_states(top_k={ask})", lambda: attention(R, E, H, 2, H + 3, ask=ask), w)
    R.ob("attention", f"{d}[not used]", lambda: attention(R, 2, 3, 2, 5, False), w)
    R.control(lambda: attention(R, 2, 3, 2, 6, True, 1))


# --------------------------------------------------------------------------- decorators of the streaming core
def deco(R, name, args, kw, fn):
    """the decorated function, with the outermost transformation taken for granted (W42, W44)"""
    I, st = Interp(R.p), S()
    R.interps.append(I)
    flags(I)
    R.p.need(ST + name)
    mod = R.p.modules[ST[:-1]]
    I.gcache[(mod.name, "streaming_transform_with_state")] = Py("streaming_transform_with_state", lambda I2, a, k, s: a[0])
    d = I.call(I.global_value(mod, name), [lift(I, st, y) for y in args], {n: lift(I, st, y) for n, y in kw.items()}, None, st)
    return I, st, I.call(d, [fn], {}, None, st)


def deco_conditional(R, cond, neg=False):
    log = []

    def user(I, a, k, s):
        log.append(1)
        return mk("app", "USER", *[I.term(y, s) for y in a])

    args = [sym("x", fixed=1), sym("y", fixed=1)]
    c = Py("condition", lambda I, a, k, s: const(cond) if a == args else mk("app", "OTHERCOND", *a))
    I, st, w = deco(R, "conditional_update", [c], {}, Py("user", user))
    o = I.call(w, list(args), {}, None, st)
    if log and len(log) != (1 if cond else 0):
        return violated(f"the function ran {len(log)} times although the condition is {cond}")
    return eq_struct(R, I, st, o, mk("app", "USER", *args) if cond != neg else args[0], ())


def deco_machine(R, init, truth, neg=False):
    log = []

    def state(n):
        def f(I, a, k, s):
            log.append(n)
            return mk("app", "STATE" + n.upper(), *[I.term(y, s) for y in a])
        return Py(n, f)

    cond = lambda a, b: Py(f"{a}->{b}", lambda I, args, k, s: const(truth[a, b]))
    tr = {}
    for a, b in truth:
        tr.setdefault(a, {})[b] = cond(a, b)
    x = sym("x", fixed=1)
    go = lambda: deco(R, "state_machine", [], {"states": {n: state(n) for n in ("a", "b", "c")}, "transitions": tr, "initial_state": init}, Py("user", lambda I, a, k, s: NONE))
    I, st, w = go()
    I.call(w, [x], {}, None, st)
    slots = dict(I.slot_init)
    if len(slots) != 1:
        return undecided(f"state slots {sorted(slots)}")
    del log[:]
    I, st, w = go()
    st.store.update(slots)
    o = I.unpack(I.call(w, [x], {}, None, st), 2, st)
    if log and log != [init]:
        return violated(f"the functions of {log} ran, required that of {init!r}")
    nxt = next((b for (a, b), t in truth.items() if a == init and t), init)
    return worst([eq_struct(R, I, st, o[0], mk("app", "STATE" + init.upper(), x), (), "output"), same_name(o[1], "zz" if neg else nxt, "returned state")])


def deco_hierarchy(R, names, wrong=False):
    I, st, w = deco(R, "hierarchical_composition", [], {n: module(n) for n in names}, Py("user", lambda I, a, k, s: NONE))
    u = sym("u", fixed=1)
    o = I.call(w, [], {"u": u}, None, st)

    class R_:
        pass

    s = R_()
    s.I, s.st, s.out = I, st, o
    return same_entries(R, s, {n: out(n, **({} if wrong else {"u": u})) for n in names})
