"""Flax feedback modules: the agent sees the observation (and the reward), its action is returned and remembered."""
from . import prop
from ..interp import AbsRaise, Arr
from ..judge import *
from ..terms import *
from .r10_windows import where_

BASE = "wax.flax.modules.gym_feedback."
obs = [Arr([sym(f"o{t}_{i}") for i in range(2)]) for t in range(3)]
scalar_rew = [sym(f"r{t}") for t in range(3)]
vector_rew = [Arr([sym(f"r{t}_{i}") for i in range(3)]) for t in range(3)]


def flatly(xs, term=lambda x: x):
    """arrays by their components (each argument keeps its own length)"""
    return [q for x in xs for q in ([term(y) for y in x.items] if isinstance(x, Arr) else [term(x)])]


def act(I, s, *xs):
    return Arr([mk("app", f"ACT{i}", *flatly(xs, lambda x: I.term(x, s))) for i in range(2)])


def want_act(*xs):
    return [mk("app", f"ACT{i}", *flatly(xs)) for i in range(2)]


def drive(R, cls, reward, agent="both", wrong=False, wide=False):
    """wide: rewards of several components; agent: 'both' takes (obs, reward); 'obs' takes the observation only"""
    calls = []
    slots = []
    rew = vector_rew if wide else scalar_rew

    def agent_(I, a, kw, s):
        if agent == "obs" and len(a) + len(kw) > 1:
            raise AbsRaise("TypeError", sure=True)
        xs = list(a) + [kw[k] for k in sorted(kw)]
        calls.append(len(xs))
        return act(I, s, *xs)

    def setup(I, st, args, kw, cfg):
        I.scalars = I.scalar_items = I.concrete = True
        return args, kw, {"agent": Py("agent", agent_)}

    def run(i, store):
        calls.clear()
        return run_module(R, BASE + cls, {}, [obs[i]] + ([rew[i]] if reward else []), store=store, setup=setup)

    rs = []
    for i in range(3):
        s = run(i, None)
        out = s.out
        n = len(calls)
        args = (obs[i], rew[i]) if reward and agent == "both" else (obs[i],)
        a = want_act(*(reversed(args) if wrong else args))
        if cls == "GymFeedbackLoop":
            items = s.I.unpack(out, 3, s.st)
            rs.append(eq_struct(R, s.I, s.st, items[0], list(obs[i].items), (), f"observation {i + 1}"))
            rs.append(eq_struct(R, s.I, s.st, items[2], (list(rew[i].items) if wide else rew[i]) if reward else ZERO, (), f"reward {i + 1}"))
            out = items[1]
        rs.append(eq_struct(R, s.I, s.st, out, a, (), f"action {i + 1}"))
        slots = [v for k, v in s.st.store.items() if "prev_action" in str(k)]
        for v in slots:
            rs.append(eq_struct(R, s.I, s.st, v, a, (), f"remembered action {i + 1}"))
        if n != 1:
            rs.append(violated(f"the agent acts {n} times in a step") if n == 0 or n > 1 else holds())
    if not slots:
        rs.append(undecided("no state entry prev_action"))
    return worst(rs)


def through(R, wrong=False):
    """UpdateParams returns what its function returns for the same arguments"""
    def f(I, a, kw, s):
        return Arr([mk("app", "F0", *[I.term(x, s) for x in a], I.term(kw["k"], s)), mk("app", "F1", *[I.term(x, s) for x in a])])

    def setup(I, st, args, kw, cfg):
        return args, kw, {"fun": Py("fun", f)}

    x, y, k = sym("x"), sym("y"), sym("k")
    s = run_module(R, "wax.flax.modules.update_params.UpdateParams", {}, [x, y], {"k": k}, setup=setup)
    if wrong:
        x, y = y, x
    return eq_struct(R, s.I, s.st, s.out, [mk("app", "F0", x, y, k), mk("app", "F1", x, y)], (), "result")


@prop("W74")
def flaxgym(R):
    R.total = True
    R.rule("action", "each step calls the agent once with the observation (and the reward when one is given and the agent takes it) and returns its action")
    R.rule("loop", "GymFeedbackLoop returns (observation, action, reward) of the step, reward 0 when none is given")
    R.rule("through", "UpdateParams returns what its function returns for the same arguments")
    for cls in ("GymFeedback", "GymFeedbackLoop"):
        w = where_(R, BASE + cls)
        for reward in (False, True):
            for ag in ("both", "obs"):
                R.ob("loop" if "Loop" in cls else "action", f"{cls}[{'reward' if reward else 'no reward'},agent takes {'both' if ag == 'both' else 'the observation'}]", lambda: drive(R, cls, reward, ag), w)
        R.ob("loop" if "Loop" in cls else "action", f"{cls}[vector of rewards]", lambda: drive(R, cls, True, "both", wide=True), w)
        R.control(lambda: drive(R, cls, True, "both", wrong=True))
    R.ob("through", "UpdateParams", lambda: through(R), where_(R, "wax.flax.modules.update_params.UpdateParams"))
    R.control(lambda: through(R, wrong=True))
