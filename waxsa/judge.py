"""One-step transition relations of modules and their comparison with independent specifications."""
import itertools
import re

from .interp import Arr, Bound, Cls, Ext, Func, GiveUp, AbsRaise, Interp, PDict, PList, Phi, PInst, Py, Ref, S, Splat, Tup, V
from .report import HOLDS, UNDECIDED, VIOLATED, Res, holds, undecided, violated
from .interp import NONE
from . import terms
from .models import SCALAR_OPS
from .terms import FALSE, ONE, TRUE, T, ZERO, compare, const, free_name, ite, mk, not_, subst, sym


def loc(mod, node):
    return f"{mod.rel}:{getattr(node, 'lineno', 0)}:{getattr(node, 'name', '')}"


def bounded(p, a):
    """locate a dotted function/class and call convention"""
    return p.need(a)


class Step:
    """result of abstractly applying a module (or function) once"""

    def __init__(self, I, st, out):
        self.I, self.st, self.out = I, st, out

    def slots(self):
        """[(leaf key, init, prev, next)]"""
        res = []
        for k in self.I.slot_sym:
            a = dict(leaves_of(self.I.slot_init.get(k), self.I, self.st))
            b = dict(leaves_of(self.I.slot_sym.get(k), self.I, self.st))
            c = dict(leaves_of(self.st.store.get(k), self.I, self.st))
            for s in b:
                res.append((k + s, a.get(s), b[s], c.get(s)))
        return res


def leaves_of(v, I, st, pre=""):
    """flatten a structured value to (suffix, term)"""
    if isinstance(v, Tup):
        out = []
        for i, x in enumerate(v.items):
            n = v.names[i] if v.names and i < len(v.names) else i
            out += leaves_of(x, I, st, f"{pre}.{n}")
        return out
    if isinstance(v, Arr):
        out = []
        for i, x in enumerate(v.items):
            out += leaves_of(x, I, st, f"{pre}[{i}]")
        return out
    if isinstance(v, Ref):
        try:
            p = I.get(st, v)
        except GiveUp:
            return [(pre, I.term(v, st))]
        if isinstance(p, PDict) and p.rest is None:
            out = []
            for k, x in p.d.items():
                out += leaves_of(x, I, st, f"{pre}.{k}")
            return out
        if isinstance(p, PList):
            return leaves_of(Tup(list(p.items)), I, st, pre)
        return [(pre, I.term(v, st))]
    if isinstance(v, Phi):
        a, b = leaves_of(v.a, I, st, pre), leaves_of(v.b, I, st, pre)
        if [s for s, _ in a] == [s for s, _ in b]:
            return [(s, ite(v.c, x, y)) for (s, x), (_, y) in zip(a, b)]
        return [(pre, I.term(v, st))]
    return [(pre, I.term(v, st))]


def run_module(R, dotted, cfg, args, kw=None, override=None, store=None, handlers=None, assume=None, init_mode=False, setup=None, class_models=None, preload=False, method=None):
    if preload and store is None:
        # discover the state slots, then run the step proper with all of them in place
        first = run_module(R, dotted, cfg, args, kw, override, None, handlers, assume, init_mode, setup, class_models)
        second = run_module(R, dotted, cfg, args, kw, override, dict(first.I.slot_sym), handlers, assume, init_mode, setup, class_models)
        second.I.slot_init, second.I.slot_sym = dict(first.I.slot_init), dict(first.I.slot_sym)
        return second
    I = Interp(R.p)
    I.class_models = class_models or {}
    if override:
        I.slot_override = dict(override)
    if handlers:
        I.handlers.update(handlers)
    if assume:
        I.assume.update(assume)
    I.init_mode = init_mode
    shaped = lambda x: isinstance(x, Arr) or isinstance(x, Tup) and any(map(shaped, x.items)) or isinstance(x, T) and x.op == "sym" and bool(terms.sym_flags(x).get("scalar"))
    I.scalar_items = any(map(shaped, args))
    st = S()
    if store:
        st.store.update(store)
    mod, node = R.p.need(dotted)
    c = I.global_value(mod, node.name)
    if setup:
        args, kw, cfg = setup(I, st, args, kw, cfg)
    inst = I.call(c, [], dict(cfg), None, st)
    out = I.call(inst if method is None else I.getattr(inst, method, st), list(args), dict(kw or {}), None, st)
    R.saw(I)
    return Step(I, st, out)


def run_function(R, dotted, args, kw=None, handlers=None, assume=None, st=None, I=None, setup=None):
    I = I or Interp(R.p)
    if handlers:
        I.handlers.update(handlers)
    if assume:
        I.assume.update(assume)
    st = st or S()
    r = R.p.need(dotted)
    mod, node = r
    parts = dotted.split(".")
    v = I.global_value(mod, parts[-1]) if R.p.find(".".join(parts[:-1])) and R.p.find(".".join(parts[:-1]))[1] is mod.tree else None
    if v is None:
        # a method: Class.method
        cm, cn = R.p.need(".".join(parts[:-1]))
        c = I.global_value(cm, cn.name)
        v, _ = I.class_member(c, parts[-1], st)
    if setup:
        args, kw = setup(I, st)
    out = I.call(v, list(args), dict(kw or {}), None, st)
    R.saw(I)
    return Step(I, st, out)


def unmark(t, memo=None):
    """drop stop_gradient marks where they change nothing: outside of gradients and on values without the differentiated one"""
    if not terms.MARKED:
        return t
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(unmark(a, memo) for a in t)
    if not isinstance(t, T):
        return t
    if t not in memo:
        if t.op == "constant":
            memo[t] = unmark(t.args[0], memo)
        elif t.op == "grad":
            memo[t] = mk("grad", inside(t.args[0], t.args[1], {}), unmark(t.args[1], memo))
        else:
            args = tuple(unmark(a, memo) for a in t.args)
            memo[t] = t if args == t.args else terms.rebuild(t.op, args)
    return memo[t]


def inside(t, wrt, memo):
    if isinstance(t, tuple):
        return tuple(inside(a, wrt, memo) for a in t)
    if not isinstance(t, T):
        return t
    if t not in memo:
        if t.op == "constant":
            u = unmark(t.args[0])
            memo[t] = mk("constant", u) if any(v is wrt for v in terms.subterms(t.args[0])) else u
        elif t.op == "grad":
            memo[t] = unmark(t)
        else:
            args = tuple(inside(a, wrt, memo) for a in t.args)
            memo[t] = t if args == t.args else terms.rebuild(t.op, args)
    return memo[t]


def eq_terms(R, a, b, assume=()):
    a, b = unmark(a), unmark(b)
    finite = getattr(R, "finite", True) and not any(t.op == "sym" and terms.sym_flags(t).get("inf") for x in (a, b) for t in terms.leaves(x))
    v = compare(a, b, assume=tuple(assume), finite=finite, missing=getattr(R, "missing", ()))
    R.cases += v.cases
    return v


def eq_struct(R, I, st, got, want, assume=(), label="output"):
    """compare a code value with a specified nested structure (list/tuple/dict of terms)"""
    g = leaves_of(got, I, st)
    w = list(spec_leaves(want))
    if [s for s, _ in w] != [s for s, _ in g] and sorted(s for s, _ in w) == sorted(s for s, _ in g) and len(dict(w)) == len(w):
        g = [(s, dict(g)[s]) for s, _ in w]
    if [s for s, _ in w] != [s for s, _ in g]:
        # tolerate attribute-vs-index naming: compare by position when the arity agrees
        if len(w) == len(g) > 1 and isinstance(got, Arr) and all(one_value(x) for _, x in g):
            for (a, x), (b, y) in zip(g, w):
                if depth(a) != depth(b) and (depth(a) > depth(b) or single(I, x)) and (depth(a) < depth(b) or single(I, y)):
                    return violated(f"{label}: components {[s for s, _ in g]}, required {[s for s, _ in w]}")
        if len(w) != len(g):
            if (isinstance(got, (Arr, Tup)) or isinstance(got, Ref) and isinstance(I.get(st, got), PList)) and isinstance(want, (list, tuple)) and all(one_value(x) for _, x in g):
                return violated(f"{label}: code produces {len(g)} components {[s for s, _ in g]}, required {[s for s, _ in w]}")
            for p, x in g:
                q = re.sub(r"\.(\d+)", r"[\1]", p)
                if (single(I, x) or any(x is y and u.startswith(q + "[") for u, y in w)) and not any(u == q for u, _ in w) and any(u.startswith(q + "[") for u, _ in w):
                    return violated(f"{label}{p}: code gives the single value {x}, required several components")
            for q, y in w:
                mine = [(u, x) for u, x in g if u.startswith(q + "[")]
                if y.op == "num" and len(mine) > 1 and all(one_value(x) for _, x in mine):
                    return violated(f"{label}{q}: code gives {len(mine)} components {[u for u, _ in mine]}, required the single value {y}")
            return undecided(f"{label}: shape {[s for s, _ in g]} vs required {[s for s, _ in w]}")
    und = None
    for (s, x), (_, y) in zip(g, w):
        v = eq_terms(R, x, y, assume)
        if v.status == "differ":
            return violated(f"{label}{s}: {v.detail}")
        if v.status != "equal":
            und = und or undecided(f"{label}{s}: {v.detail}")
    return und or holds()


def depth(path):
    return path.count("[") + path.count(".")


def single(I, x):
    """a term that stands for one value of shape ()"""
    if x.op == "sym":
        return bool(I.scalars or dict(x.args[1]).get("scalar"))
    if x.op == "app":
        return bool(I.scalars and free_name(x.args[0]))
    return x.op in SCALAR_OPS and all(single(I, a) for a in x.args if isinstance(a, T))


def one_value(x):
    """a term that cannot stand for several components"""
    if x.op == "app":
        return free_name(x.args[0])
    return x.op not in ("call", "opaque", "item", "tuple", "list", "dict", "arr", "stack", "elem", "reshape")


def spec_leaves(w, pre=""):
    if isinstance(w, (list, tuple)):
        for i, x in enumerate(w):
            yield from spec_leaves(x, f"{pre}[{i}]")
    elif isinstance(w, dict):
        for k, x in w.items():
            yield from spec_leaves(x, f"{pre}.{k}")
    else:
        yield pre, w


def worst(rs):
    rs = list(rs)
    for s in (VIOLATED, UNDECIDED):
        for r in rs:
            if r.status == s:
                return r
    return rs[0] if rs else holds()


class Guarded:
    """a state value that is only meaningful while `guard` holds"""

    def __init__(self, guard, value):
        self.guard, self.value = guard, value


class Spec:
    """independent specification of a transition

    init : {name: term}           initial state
    step : f(state {name: term}, inputs) -> (out structure, {name: next term})
    inv  : f(state) -> [terms]    facts about reachable states
    flags: {name: flags}"""

    def __init__(self, init, step, inv=None, flags=None, optional=()):
        self.init, self.step, self.inv, self.flags, self.optional = init, step, inv, flags or {}, set(optional)


def transition(R, runner, spec, inputs, depth=3, fresh_inputs=None, assume=()):
    """Compare the code's one-step transition relation with `spec`.

    runner(inputs, store) -> Step.  First the inductive comparison: some matching of the code's state slots to the
    specified state under which initial values, outputs and successor states agree in every case.  If none exists, the
    transition summaries are composed from the initial state (`depth` times) and the outputs compared."""
    step = runner(inputs, None)
    slots = [s for s in step.slots() if isinstance(s[2], T)]
    names = list(spec.init)
    cands = {}
    und = []
    for n in names:
        cands[n] = []
        for i, (k, init, prev, nxt) in enumerate(slots):
            if prev.op != "sym":
                continue
            v = eq_terms(R, init if init is not None else NONE, spec.init[n])
            if v.status == "equal":
                cands[n].append(i)
    best = None
    tried = 0
    undec = False

    def score(names_, slots_):
        key = [(0 if n.lower() in slots_[i][0].lower().split("/")[-1] else 1) for n, i in names_.items()]
        return sum(key)

    order = sorted(
        (dict(zip(names, c)) for c in itertools.islice(itertools.product(*(cands[n] for n in names)), 5000) if len(set(c)) == len(c)),
        key=lambda m: score(m, slots),
    )
    for m in order[:48]:
        tried += 1
        state = {n: slots[i][2] for n, i in m.items()}
        out, nxt = spec.step(state, inputs)
        inv = list(spec.inv(state)) if spec.inv else []
        rs = [eq_struct(R, step.I, step.st, step.out, out, inv + list(assume), "output")]
        for n, i in m.items():
            if nxt[n] is None:
                continue
            g = [nxt[n].guard] if isinstance(nxt[n], Guarded) else []
            v = eq_terms(R, slots[i][3], nxt[n].value if g else nxt[n], inv + list(assume) + g)
            if v.status == "differ":
                rs.append(violated(f"next state {n} ({slots[i][0]}): {v.detail}"))
            elif v.status != "equal":
                rs.append(undecided(f"next state {n} ({slots[i][0]}): {v.detail}"))
            else:
                rs.append(holds())
        bad = sum(r.status == VIOLATED for r in rs)
        un = sum(r.status == UNDECIDED for r in rs)
        if bad == 0 and un == 0:
            # positive control: a shifted requirement must be told apart
            return holds(f"inductive; slots {[(n, slots[i][0]) for n, i in m.items()]}")
        if best is None or (bad, un) < best[0]:
            best = ((bad, un), worst(rs))
    same_repr = best is not None and len([s for s in slots if s[2].op == "sym"]) <= len(names) + len(spec.optional)
    # composition from the initial state
    comp = compose(R, runner, spec, inputs, depth, fresh_inputs, assume)
    if comp.status == VIOLATED:
        return comp
    if comp.status == HOLDS and best is None:
        # initial values do not match but the outputs agree up to the composition depth
        return undecided("no matching of state slots; outputs agree on composed summaries")
    if best is not None and best[1].status == VIOLATED and same_repr:
        return best[1]
    if best is not None:
        return undecided("inductive comparison failed: " + best[1].detail + " | composition: " + comp.detail)
    return undecided(
        "no matching of state slots with initial values "
        + str([(k, str(i)) for k, i, _, _ in slots])
        + " | composition: "
        + comp.detail
    )


def compose(R, runner, spec, inputs, depth, fresh_inputs=None, assume=()):
    store = None
    state = dict(spec.init)
    first = runner(inputs, None)
    store = dict(first.I.slot_init)
    last = None
    for k in range(depth):
        ins = [rename_input(x, k) for x in inputs] if fresh_inputs is None else fresh_inputs(k)
        s = runner(ins, dict(store))
        out, nxt = spec.step(state, ins)
        r = eq_struct(R, s.I, s.st, s.out, out, [rename_all(a, k) for a in assume], f"output at step {k + 1} from the initial state")
        if r.status == VIOLATED:
            return r
        if r.status == UNDECIDED:
            last = last or r
        state = {n: (state[n] if nxt[n] is None else nxt[n].value if isinstance(nxt[n], Guarded) else nxt[n]) for n in state}
        for key, v in s.st.store.items():
            if not leaf_only(v):
                return undecided("state not composable")
        store = {k2: v for k2, v in s.st.store.items()}
    return last or holds(f"composition depth {depth}")


def leaf_only(v):
    if isinstance(v, (Tup, Arr)):
        return all(leaf_only(x) for x in v.items)
    return isinstance(v, T)


def rename_input(x, k):
    if isinstance(x, T):
        return rename_all(x, k)
    if isinstance(x, Arr):
        return Arr([rename_input(y, k) for y in x.items])
    if isinstance(x, Tup):
        return Tup([rename_input(y, k) for y in x.items], x.kind, x.names, x.cls)
    return x


def rename_all(t, k):
    from .terms import leaves

    m = {}
    for l in leaves(t):
        if l.op == "sym" and not l.args[0].startswith("/") and not dict(l.args[1]).get("fixed"):
            m[l] = mk("sym", f"{l.args[0]}_{k}", l.args[1])
    return subst(t, m)


def module_runner(R, dotted, cfg, kwnames=(), **opts):
    """runner over positional inputs; the trailing inputs named in kwnames are passed by keyword"""

    def run(inputs, store):
        n = len(inputs) - len(kwnames)
        return run_module(R, dotted, cfg, list(inputs[:n]), dict(zip(kwnames, inputs[n:])), store=store, **opts)

    return run


# ------------------------------------------------------------------ finite memory / composition of summaries
def map_leaves(v, f, key):
    if isinstance(v, Tup):
        return Tup([map_leaves(x, f, f"{key}.{v.names[i] if v.names and i < len(v.names) else i}") for i, x in enumerate(v.items)], v.kind, v.names, v.cls)
    if isinstance(v, Arr):
        return Arr([map_leaves(x, f, f"{key}[{i}]") for i, x in enumerate(v.items)])
    if isinstance(v, T):
        return f(key, v)
    raise GiveUp(f"state leaf {key} is not a plain value")


def walk_leaves(v, key):
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            yield from walk_leaves(x, f"{key}.{v.names[i] if v.names and i < len(v.names) else i}")
    elif isinstance(v, Arr):
        for i, x in enumerate(v.items):
            yield from walk_leaves(x, f"{key}[{i}]")
    else:
        yield key, v


def is_cnum(t):
    return isinstance(t, T) and t.op == "num"


def unwrap_num(t):
    while isinstance(t, T) and t.op in ("toint", "typed", "tofloat") and t.args:
        t = t.args[-1] if isinstance(t.args[-1], T) else t.args[0]
    return t


def int_states(runner, inputs, limit=16):
    """constant propagation over the integer part of the state: the list of reachable valuations.

    Returns [(initial?, store)] where non-constant leaves are fresh symbols (arbitrary previous data)."""
    first = runner(inputs, None)
    init = dict(first.I.slot_init)
    cand = set()
    for k, v in init.items():
        for key, leaf in walk_leaves(v, k):
            if is_cnum(unwrap_num(leaf)):
                cand.add(key)
    while True:
        def mk_store(vals):
            return {
                k: map_leaves(v, lambda key, leaf: vals[key] if key in vals else sym(key, **first.I.flags_of(leaf)), k)
                for k, v in init.items()
            }

        vals = {}
        for k, v in init.items():
            for key, leaf in walk_leaves(v, k):
                if key in cand:
                    vals[key] = unwrap_num(leaf)
        seen, states, dropped = set(), [], set()
        for _ in range(limit):
            sig = tuple(sorted((k, v.args[0]) for k, v in vals.items()))
            if sig in seen:
                break
            seen.add(sig)
            states.append(mk_store(vals))
            s = runner(inputs, dict(states[-1]))
            nxt = {}
            for k, v in s.st.store.items():
                for key, leaf in walk_leaves(v, k):
                    if key in cand:
                        u = const_of(leaf)
                        if u is None:
                            dropped.add(key)
                        else:
                            nxt[key] = u
            if dropped:
                break
            vals = nxt
        if not dropped:
            return first, init, states
        cand -= dropped


def const_of(t):
    """numeric value of a closed term, via its normal form"""
    from .terms import Ctx, NF, leaves

    t = unwrap_num(t)
    if is_cnum(t):
        return t
    if not isinstance(t, T) or leaves(t):
        return None
    c = Ctx()
    try:
        for facts, vals in c.run([t]):
            v = vals[0]
            if isinstance(v, NF):
                for k in (range(-64, 65)):
                    if compare(t, const(k)).status == "equal":
                        return const(k)
            return None
    except Exception:
        return None
    return None


def run_chain(runner, store, seq):
    outs = []
    cur = store
    steps = []
    for x in seq:
        s = runner(x, dict(cur) if cur is not None else None)
        steps.append(s)
        cur = {k: v for k, v in s.st.store.items()}
        for k, v in cur.items():
            if not leaf_only(v):
                raise GiveUp(f"state slot {k} has no plain value: {v}")
    return steps


def component(I, st, v, i):
    """the i-th component of every array in a structure"""
    if isinstance(v, Arr):
        return v.items[i]
    if isinstance(v, Tup):
        return Tup([component(I, st, x, i) for x in v.items], v.kind, v.names, v.cls)
    if isinstance(v, Ref) and isinstance(I.get(st, v), PDict):
        p = I.get(st, v)
        return I.alloc(st, PDict({k: component(I, st, x, i) for k, x in p.d.items()}))
    return v


def alone(R, dotted, cfg, inputs, n=2, steps=3, shared=0, kwnames=()):
    """every component of an array input evolves exactly like a scalar input of its own

    inputs(k, i): the inputs of component i at step k; the last `shared` inputs are common to all components"""
    def rows(k):
        cols = [inputs(k, i) for i in range(n)]
        own = len(cols[0]) - shared
        return [Arr([c[j] for c in cols]) for j in range(own)] + list(cols[0][own:])

    run = module_runner(R, dotted, cfg, kwnames)
    vec = run_chain(run, dict(run(rows(0), None).I.slot_init), [rows(k) for k in range(steps)])
    rs = []
    for i in range(n):
        one = run_chain(run, dict(run(inputs(0, i), None).I.slot_init), [inputs(k, i) for k in range(steps)])
        for k in range(steps):
            g = dict(leaves_of(component(vec[k].I, vec[k].st, vec[k].out, i), vec[k].I, vec[k].st))
            w = dict(leaves_of(one[k].out, one[k].I, one[k].st))
            if set(g) != set(w):
                return undecided(f"output {k + 1} of component {i}: {sorted(g)} vs {sorted(w)}")
            for q in w:
                if g[q] is w[q]:
                    continue
                v = eq_terms(R, g[q], w[q], ())
                rs.append(violated(f"output {k + 1}{q} of component {i} is not that of the component alone: {v.detail}") if v.status == "differ" else holds() if v.status == "equal" else undecided(v.detail))
                if rs[-1].status == VIOLATED:
                    return rs[-1]
    return worst(rs) if rs else holds(f"{n} components, {steps} steps, identical expressions")


def finite_memory(R, runner, mk_input, spec, memory, warm, out_of=None, limit=16, assume=()):
    """The module's output must equal spec(history) where history is the list of inputs, most recent last.

    from the initial state: every t < warm; from any reachable state: after `memory` further inputs."""
    first, init, states = int_states(runner, mk_input(0), limit)
    rs = []
    hist = [mk_input(k) for k in range(warm)]
    steps = run_chain(runner, init, hist)
    for t, s in enumerate(steps):
        got = s.out if out_of is None else out_of(s)
        want = spec([h for h in hist[: t + 1]], True)
        r = eq_struct(R, s.I, s.st, got, want, assume, f"output {t + 1} inputs after the initial state")
        rs.append(r)
        if r.status == VIOLATED:
            return r
    for st0 in states:
        seq = [mk_input(k) for k in range(memory + 1)]
        steps = run_chain(runner, st0, seq)
        s = steps[-1]
        got = s.out if out_of is None else out_of(s)
        want = spec(seq, False)
        r = eq_struct(R, s.I, s.st, got, want, assume, f"output from an arbitrary reachable state after {memory} further inputs")
        rs.append(r)
        if r.status == VIOLATED:
            return r
    w = worst(rs)
    return w if w.status != HOLDS else holds(f"{len(rs)} summaries ({len(states)} reachable integer states)")
