"""The online Newton optimiser."""
from fractions import Fraction

from . import prop
from ..interp import Arr, NTCls, PDict
from ..judge import *
from ..terms import *
from .r10_windows import where_

EPS, LR = sym("eps", scalar=1), sym("lr", scalar=1)
GT = NTCls("GradientTransformation", ("init", "update"))


def interp(R):
    I = Interp(R.p)
    I.scalar_items = I.scalars = I.concrete = True
    gt = lambda I2, a, k, s: Tup([a[0] if a else k["init"], a[1] if len(a) > 1 else k["update"]], "namedtuple", ("init", "update"), GT)
    I.handlers["optax.GradientTransformation"] = gt
    I.handlers["optax.GradientTransformationExtraArgs"] = gt
    I.handlers["optax.chain"] = lambda I2, a, k, s: Tup(list(a), "chain")
    lr = lambda I2, a, k, s: Tup([a[0] if a else k["learning_rate"], k.get("flip_sign", TRUE)], "lr")
    I.handlers["optax.scale_by_learning_rate"] = lr
    R.interps.append(I)
    return I, S()


def dot(a, b):
    t = ZERO
    for x, y in zip(a, b):
        t = mk("add", t, mk("mul", x, y))
    return t


def mat_vec(m, v):
    return [dot(r, v) for r in m]


def rank_one(m, g):
    """inverse of (inverse of m) + g g^T for a symmetric m"""
    h = mat_vec(m, g)
    den = mk("add", ONE, dot(g, h))
    return [[mk("sub", m[i][j], mk("div", mk("mul", h[i], h[j]), den)) for j in range(len(g))] for i in range(len(g))]


def grads(shape, tag):
    if shape == ():
        return sym(tag), [sym(tag)]
    if len(shape) == 1:
        xs = [sym(f"{tag}{i}") for i in range(shape[0])]
        return Arr(xs), xs
    xs = [[sym(f"{tag}{i}_{j}") for j in range(shape[1])] for i in range(shape[0])]
    return Arr([Arr(r) for r in xs]), [x for r in xs for x in r]


def shaped(shape, flat):
    if shape == ():
        return flat[0]
    if len(shape) == 1:
        return list(flat)
    return [list(flat[i * shape[1]:(i + 1) * shape[1]]) for i in range(shape[0])]


def eye(n):
    return [[mk("div", ONE, EPS) if i == j else ZERO for j in range(n)] for i in range(n)]


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def newton(R, shapes, steps, wrong=False):
    """shapes: {name: shape} of the parameters (None key: a bare array)"""
    I, st = interp(R)
    opt = run_function(R, "wax.optim.newton.scale_by_newton", [EPS], I=I, st=st).out
    def tree(tag):
        d = {k: grads(s, f"{tag}_{k}") for k, s in shapes.items()}
        return (d[None][0] if None in d else I.alloc(st, PDict({k: v[0] for k, v in d.items()}))), {k: v[1] for k, v in d.items()}
    p, _ = tree("p")
    state = I.call(I.getattr(opt, "init", st), [p], {}, None, st)
    hs = {k: eye(size(s)) for k, s in shapes.items()}
    for n in range(steps):
        g, flat = tree(f"g{n}")
        out = I.call(I.getattr(opt, "update", st), [g, state] + ([p] if n % 2 else []), {}, None, st)
        up, state = I.unpack(out, 2, st)
        want = {}
        for k, s in shapes.items():
            old = hs[k]
            hs[k] = rank_one(hs[k], flat[k])
            want[k] = shaped(s, mat_vec(old if wrong else hs[k], flat[k]))
        r = eq_struct(R, I, st, up, want[None] if None in want else want, (), f"update of step {n + 1}")
        if r.status != "holds":
            return r
    return holds()


def step(R, n):
    """one step from an arbitrary symmetric inverse: the new one inverts H + g g^T"""
    I, st = interp(R)
    opt = run_function(R, "wax.optim.newton.scale_by_newton", [EPS], I=I, st=st).out
    h = [[sym(f"h{min(i, j)}{max(i, j)}") for j in range(n)] for i in range(n)]
    p, _ = grads((n,), "p")
    st0 = I.call(I.getattr(opt, "init", st), [p], {}, None, st)
    if not isinstance(st0, Tup) or len(st0.items) != 1:
        return undecided(f"optimiser state {st0}")
    g, flat = grads((n,), "g")
    state = Tup([Arr([Arr(r) for r in h])], st0.kind, st0.names, st0.cls)
    out = I.call(I.getattr(opt, "update", st), [g, state], {}, None, st)
    up, nxt = I.unpack(out, 2, st)
    new = rank_one(h, flat)
    return worst([eq_struct(R, I, st, up, mat_vec(new, flat), (), "update"), eq_struct(R, I, st, nxt.items[0], new, (), "new inverse")])


def chain(R, given):
    I, st = interp(R)
    made = []
    I.handlers["wax.optim.newton.scale_by_newton"] = lambda I2, a, k, s: (made.append(a[0] if a else k.get("eps")), Tup([], "newton"))[1]
    out = run_function(R, "wax.optim.newton.newton", [LR], {"eps": EPS} if given else {}, I=I, st=st).out
    if not isinstance(out, Tup) or out.kind != "chain":
        return undecided(f"newton() is {out}")
    kinds = [x.kind if isinstance(x, Tup) else str(x) for x in out.items]
    if kinds != ["newton", "lr"]:
        return violated(f"the optimiser chains {kinds}, required the Newton scaling followed by the learning rate")
    r = eq_struct(R, I, st, made[0], EPS if given else const(Fraction(1, 100000)), (), "eps of the Newton scaling")
    if r.status != "holds":
        return r
    return eq_struct(R, I, st, out.items[1].items[0], LR, (), "learning rate")




@prop("W54")
def newton_rule(R):
    R.total = True
    R.rule("inverse", "after gradients g_1..g_n every leaf's update is A_n g_n where A_n is the inverse of eps I + sum g_i g_i^T over the flattened leaf, in the leaf's shape; the state of one leaf depends on that leaf only")
    R.rule("chain", "newton(lr, eps) is this scaling with eps followed by the learning rate")
    d = "wax.optim.newton.scale_by_newton"
    w = where_(R, d)
    sets = [({None: (2,)}, 2), ({None: (1,)}, 3), ({None: ()}, 2), ({None: (2, 1)}, 1), ({None: (1, 2)}, 1), ({"a": (2,), "b": (1,)}, 2), ({"a": (), "b": (1, 1)}, 2), ({None: (2, 2)}, 1)]
    for sh, n in sets:
        R.ob("inverse", f"{d}[{sh},{n} steps]", lambda: newton(R, sh, n), w)
    for n in (1, 2, 3) if R.tier == "thorough" else (1, 2):
        R.ob("inverse", f"{d}[any state,{n} parameters]", lambda: step(R, n), w)
    for g in (False, True):
        R.ob("chain", f"wax.optim.newton.newton[eps {'given' if g else 'default'}]", lambda: chain(R, g), where_(R, "wax.optim.newton.newton"))
    R.control(lambda: newton(R, {None: (2,)}, 1, True))
