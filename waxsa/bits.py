"""Bit-level provenance of integer terms: every bit is a constant or a bit of the 64-bit input."""
from .interp import GiveUp
from .terms import T

N = 192


def num_bits(v):
    return [(v >> i) & 1 for i in range(N)]


def wrap(bits, w, signed):
    return bits[:w] + [bits[w - 1] if signed else 0] * (N - w)


def typed(n, bits):
    for w in (8, 16, 32, 64):
        if n == f"int{w}":
            return wrap(bits, w, True)
        if n == f"uint{w}":
            return wrap(bits, w, False)
    return bits


INTS = {f"{u}int{w}" for u in ("", "u") for w in (8, 16, 32, 64)}


def evaluate(t, inputs):
    """(bits, numpy integer type or None for a Python int)"""
    if t in inputs:
        return inputs[t]
    if t.op == "num" and t.args[0].denominator == 1:
        return num_bits(int(t.args[0])), None
    if t.op == "cast":
        b, ty = evaluate(t.args[1], inputs)
        n = t.args[0]
        if n in INTS:
            return typed(n, b), n
        if n == "int":
            return b, None
        raise GiveUp(f"cast to {n}")
    if t.op in ("shl", "shr"):
        b, ty = evaluate(t.args[0], inputs)
        k = t.args[1]
        if k.op == "cast":
            k = k.args[1]
        if k.op != "num":
            raise GiveUp("shift by a variable")
        k = int(k.args[0])
        b = [0] * k + b[: N - k] if t.op == "shl" else b[k:] + [b[-1]] * k
        return (typed(ty, b), ty) if ty else (b, None)
    if t.op in ("bitand", "bitor", "bitxor", "add"):
        x, tx = evaluate(t.args[0], inputs)
        y, ty = evaluate(t.args[1], inputs)
        r = []
        for p, q in zip(x, y):
            if t.op == "bitand":
                v = 0 if 0 in (p, q) else q if p == 1 else p if q == 1 or p == q else None
            elif t.op == "bitor":
                v = 1 if 1 in (p, q) else q if p == 0 else p if q == 0 or p == q else None
            else:
                v = q if p == 0 else p if q == 0 else None
            if v is None:
                raise GiveUp(f"{t.op} of overlapping bits")
            r.append(v)
        ty = tx or ty
        return (typed(ty, r), ty) if ty else (r, None)
    if t.op == "mul":
        for a, c in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if c.op == "cast":
                c = c.args[1]
            if c.op == "num" and c.args[0].denominator == 1 and c.args[0] > 0 and int(c.args[0]) & (int(c.args[0]) - 1) == 0:
                from .terms import const, mk

                return evaluate(mk("shl", a, const(int(c.args[0]).bit_length() - 1)), inputs)
    if t.op in ("mod", "floordiv"):
        c = t.args[1]
        if c.op == "cast":
            c = c.args[1]
        if c.op == "num" and c.args[0].denominator == 1 and c.args[0] > 0 and int(c.args[0]) & (int(c.args[0]) - 1) == 0:
            from .terms import const, mk

            k = int(c.args[0]).bit_length() - 1
            return evaluate(mk("shr", t.args[0], const(k)) if t.op == "floordiv" else mk("bitand", t.args[0], const(2**k - 1)), inputs)
    raise GiveUp(f"integer operation {t.op}")


def int64_input():
    return [("x", i) for i in range(64)] + [("x", 63)] * (N - 64), None


def show_bits(b):
    """ranges of equal provenance"""
    out, i = [], 0
    while i < 70:
        j = i
        while j + 1 < 70 and ((isinstance(b[i], int) and b[j + 1] == b[i]) or (not isinstance(b[i], int) and not isinstance(b[j + 1], int) and b[j + 1][1] == b[j][1] + 1)):
            j += 1
        src = str(b[i]) if isinstance(b[i], int) else f"x{b[i][1]}..x{b[j][1]}"
        out.append(f"bits {i}..{j}={src}")
        i = j + 1
    return ", ".join(out[:6])
