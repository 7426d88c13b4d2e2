"""Explicit rectangular arrays of scalars: shapes, broadcasting, reshaping, basic indexing."""
from .interp import AbsRaise, Arr, GiveUp


def shape(v):
    s = []
    while isinstance(v, Arr):
        s.append(len(v.items))
        if not v.items:
            break
        v = v.items[0]
    return tuple(s)


def rank(v):
    return len(shape(v))


def flat(v):
    if isinstance(v, Arr):
        out = []
        for x in v.items:
            out += flat(x)
        return out
    return [v]


def rect(v):
    s = shape(v)

    def ok(x, d):
        if d == len(s):
            return not isinstance(x, Arr)
        return isinstance(x, Arr) and len(x.items) == s[d] and all(ok(y, d + 1) for y in x.items)

    return ok(v, 0)


def build(s, items):
    items = list(items)

    def go(d):
        if d == len(s):
            return items.pop(0)
        return Arr([go(d + 1) for _ in range(s[d])])

    return go(0)


def reshape(v, s):
    f = flat(v)
    s = list(s)
    if -1 in s:
        i = s.index(-1)
        p = 1
        for j, x in enumerate(s):
            if j != i:
                p *= x
        if p == 0 or len(f) % p:
            raise AbsRaise("TypeError")
        s[i] = len(f) // p
    p = 1
    for x in s:
        p *= x
    if p != len(f):
        raise AbsRaise("TypeError", sure=True)
    return build(s, f)


def broadcast_shapes(*ss):
    n = max(len(s) for s in ss)
    out = []
    for i in range(n):
        ds = {s[i - n + len(s)] for s in ss if i - n + len(s) >= 0} - {1}
        if len(ds) > 1:
            raise AbsRaise("ValueError", sure=True)
        out.append(ds.pop() if ds else 1)
    return tuple(out)


def broadcast_to(v, s):
    r = rank(v)
    if not isinstance(v, Arr):
        n = 1
        for x in s:
            n *= x
        return build(s, [v] * n)

    def go(x, d):
        if d == len(s):
            return x
        if d < len(s) - r:
            y = go(x, d + 1)
            return Arr([y] * s[d])
        if len(x.items) == s[d]:
            return Arr([go(y, d + 1) for y in x.items])
        if len(x.items) == 1:
            y = go(x.items[0], d + 1)
            return Arr([y] * s[d])
        raise AbsRaise("ValueError", sure=True)

    return go(v, 0)


def transpose(v):
    s = shape(v)
    if len(s) < 2:
        return v
    if len(s) > 2:
        raise GiveUp("transpose of rank > 2")
    return Arr([Arr([v.items[i].items[j] for i in range(s[0])]) for j in range(s[1])])


def repeat(v, n, axis):
    s = shape(v)
    if axis is None:
        return Arr([x for x in flat(v) for _ in range(n)])
    if axis < 0:
        axis += len(s)

    def go(x, d):
        if d == axis:
            return Arr([y for y in x.items for _ in range(n)])
        return Arr([go(y, d + 1) for y in x.items])

    return go(v, 0)


def index(v, ks):
    """basic indexing with ints, slices, None ('new') and '...'"""
    r = rank(v)
    used = sum(1 for k in ks if k != "new" and k != "...")
    if used > r:
        raise AbsRaise("IndexError")
    if "..." in ks:
        i = ks.index("...")
        ks = ks[:i] + [slice(None)] * (r - used) + ks[i + 1:]
    else:
        ks = ks + [slice(None)] * (r - used)

    def go(x, ks):
        if not ks:
            return x
        k, rest = ks[0], ks[1:]
        if k == "new":
            return Arr([go(x, rest)])
        if isinstance(k, slice):
            return Arr([go(y, rest) for y in x.items[k]])
        if not -len(x.items) <= k < len(x.items):
            raise AbsRaise("IndexError")
        return go(x.items[k], rest)

    return go(v, ks)


def expand(v, axis):
    s = shape(v)
    if axis < 0:
        axis += len(s) + 1
    return build(s[:axis] + (1,) + s[axis:], flat(v))
