"""Value-graph terms, their exact normal forms and the case comparison.

A term is a hash-consed node.  Arithmetic is normalised to exact rational
functions over atoms; selections (``where``/``cond``/``if``) are decided by
splitting on the finitely many *predicates* occurring in the compared terms
(``isnan`` of a leaf, position of a linear form with respect to a constant,
boolean flags).  Nothing is executed and no solver is involved: two value
graphs are equal iff they have the same normal form in every consistent case.
"""
from __future__ import annotations

from fractions import Fraction
from collections import Counter
import math
import random


class T:
    __slots__ = ("op", "args", "hash", "__weakref__")
    _table: dict = {}

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = T._table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.hash = hash(key)
        T._table[key] = t
    return t


class _KeyFloat:
    """constants: NaN must be equal to itself, 1 and 1.0 and True differ."""


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return mk("bool", v)
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return INF if v > 0 else mk("neg", INF)
        return mk("num", Fraction(str(v)))
    if isinstance(v, (int, Fraction)):
        return mk("num", Fraction(v))
    return mk("obj", v)


NAN = mk("nan")
INF = mk("inf")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
ZERO = mk("num", Fraction(0))
ONE = mk("num", Fraction(1))


def sym(name, **flags):
    """leaf. flags: nan (may be NaN), int, boolean, inf, pos"""
    return mk("sym", name, tuple(sorted(flags.items())))


def sym_flags(t):
    return dict(t.args[1])


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("ite", c, a, b)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk("and", a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    return mk("or", a, b)


def is_num(t):
    return t.op == "num"


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, tuple) else "(" + ", ".join(show(a, depth + 1) for a in t) + ")"
    if t.op == "num":
        f = t.args[0]
        return str(f.numerator) if f.denominator == 1 else (str(float(f)))
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "bool":
        return str(t.args[0])
    if t.op in ("nan", "inf"):
        return t.op
    if depth > 6:
        return "…"
    infix = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "ne": "!=", "and": "&", "or": "|", "pow": "**", "matmul": "@", "mod": "%"}
    if t.op in infix and len(t.args) == 2:
        return "(" + show(t.args[0], depth + 1) + f" {infix[t.op]} " + show(t.args[1], depth + 1) + ")"
    if t.op == "ite":
        return "where(" + ", ".join(show(a, depth + 1) for a in t.args) + ")"
    if t.op in ("app", "call"):
        return str(t.args[0]) + "(" + ", ".join(show(a, depth + 1) for a in t.args[1:]) + ")"
    return t.op + "(" + ", ".join(show(a, depth + 1) for a in t.args) + ")"


MARKED = False    # some value was marked as constant for gradients (stop_gradient)


def subst(t, mapping, memo=None):
    """rebuild t with leaves mapped (mapping: callable leaf->term or dict)."""
    if memo is None:
        memo = {}
    f = mapping if callable(mapping) else (lambda x: mapping.get(x, x))
    done = memo.get(t)
    if done is not None:
        return done

    def conv(a):
        if isinstance(a, T):
            return subst(a, f, memo)
        if isinstance(a, tuple):
            return tuple(conv(x) for x in a)
        return a

    if t.op == "sym":
        r = f(t)
    else:
        new = f(t)
        if new is not t:
            r = new
        else:
            args = tuple(conv(a) for a in t.args)
            r = rebuild(t.op, args) if args != t.args else t
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    return mk(op, *args)


def leaves(t, seen=None, out=None):
    if out is None:
        out, seen = set(), set()
    if isinstance(t, tuple):
        for a in t:
            leaves(a, seen, out)
        return out
    if not isinstance(t, T) or t in seen:
        return out
    seen.add(t)
    if t.op == "sym":
        out.add(t)
    for a in t.args:
        if isinstance(a, (T, tuple)):
            leaves(a, seen, out)
    return out


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for a in t:
            yield from subterms(a, seen)
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, (T, tuple)):
            yield from subterms(a, seen)


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction ; monomial: tuple of (atom_index, exponent)

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def p_mul(a, b):
    if len(a) * len(b) > 60000:
        raise TooComplex("polynomial too large")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), Fraction(0))


class TooComplex(Exception):
    pass


class Need(Exception):
    """a predicate has to be decided: (key, alternatives, describe)"""

    def __init__(self, key, alts):
        self.key = key
        self.alts = alts


class NF:
    """rational function num/den, or the special value 'nan'"""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


P1 = p_const(1)


def nf_norm(n, d):
    if not n:
        return NF({}, P1)
    if n == d:
        return NF(P1, P1)
    # common monomial factor
    if not p_is_const(d):
        common = None
        for m in list(n) + list(d):
            mm = dict(m)
            common = mm if common is None else {a: min(e, mm[a]) for a, e in common.items() if a in mm}
            if not common:
                break
        if common:
            inv = tuple((a, -e) for a, e in common.items())
            n = {m_mul(m, inv): c for m, c in n.items()}
            d = {m_mul(m, inv): c for m, c in d.items()}
    if p_is_const(d):
        c = p_cval(d)
        return NF({m: v / c for m, v in n.items()}, P1)
    lead = d[max(d)]
    if lead != 1:
        n = {m: v / lead for m, v in n.items()}
        d = {m: v / lead for m, v in d.items()}
    # exact division?
    q = p_div_exact(n, d)
    if q is not None:
        return NF(q, P1)
    q = p_div_exact(d, n)
    if q is not None and not p_is_const(q):
        c = q[max(q)]
        return NF(p_const(1 / c), {m: v / c for m, v in q.items()})
    return NF(n, d)


def _order(m):
    return (sum(e for _, e in m), m)


def p_div_exact(n, d, limit=200):
    if not d:
        return None
    lm = max(d, key=_lexkey)
    lc = d[lm]
    r = dict(n)
    q = {}
    for _ in range(limit):
        if not r:
            return q
        rm = max(r, key=_lexkey)
        diff = m_mul(rm, tuple((a, -e) for a, e in lm))
        if any(e < 0 for _, e in diff):
            return None
        c = r[rm] / lc
        q[diff] = q.get(diff, 0) + c
        r = p_add(r, p_mul({diff: c}, d), -1)
    return None


def _lexkey(m):
    # admissible lexicographic order on exponent vectors (small atom index = largest variable)
    return tuple((-a, e) for a, e in m)


def nf_add(a, b, k=1):
    if a.d == b.d:
        return nf_norm(p_add(a.n, b.n, k), a.d)
    return nf_norm(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), k), p_mul(a.d, b.d))


def nf_mul(a, b):
    return nf_norm(p_mul(a.n, b.n), p_mul(a.d, b.d))


def nf_div(a, b):
    if not b.n:
        raise ZeroDivisionError
    return nf_norm(p_mul(a.n, b.d), p_mul(a.d, b.n))


def nf_eq(a, b):
    if a.d == b.d:
        return a.n == b.n
    return p_mul(a.n, b.d) == p_mul(b.n, a.d)


def nf_const(c):
    return NF(p_const(c), P1)


class _Nan:
    def __repr__(self):
        return "nan"


class _Sgn:
    """+inf / -inf / undefined division"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


VNAN = _Nan()
VPINF = _Sgn("+inf")
VNINF = _Sgn("-inf")


class Atoms:
    """interning of non-arithmetic values appearing inside normal forms"""

    def __init__(self):
        self.items = []  # (op, args) ; args values
        self.bykey = {}
        self.flags = []
        self.terms = []

    def get(self, op, args, flags=None, term=None):
        key = None
        try:
            key = (op, args)
            i = self.bykey.get(key)
            if i is not None:
                return i
        except TypeError:
            key = None
        for i, (o, a) in enumerate(self.items):
            if o == op and len(a) == len(args) and all(v_eq(x, y) for x, y in zip(a, args)):
                return i
        self.items.append((op, args))
        self.flags.append(flags or {})
        self.terms.append(term)
        i = len(self.items) - 1
        if key is not None:
            try:
                self.bykey[key] = i
            except TypeError:
                pass
        return i


def v_eq(a, b):
    """equality of leaf values (NF, bool, nan, ...)"""
    if a is b:
        return True
    if isinstance(a, NF) and isinstance(b, NF):
        return nf_eq(a, b)
    if isinstance(a, NF) or isinstance(b, NF):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(v_eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# uninterpreted operators whose meaning is known exactly (a mismatch is a real one)
KNOWN_OPS = {
    "sym", "exp", "log", "sqrt", "pow", "reduce", "tanh", "sin", "cos", "floor", "mod", "fmod", "matmul",
    "floordiv", "finfo", "shape", "dtype", "elem", "round", "inf", "obj", "flagnum", "ceil", "expand", "call", "item", "attr", "idx", "kw", "dict", "tuple", "list", "split", "key",
}


def free_name(n):
    """functions the specification itself introduces (OUT, STATE, ...): any interpretation is admissible"""
    n = str(n)
    return n.isupper() and n.isidentifier()


class Ctx:
    """evaluation of terms under a set of facts"""

    def __init__(self, atoms=None, finite=True, missing=()):
        self.atoms = atoms or Atoms()
        self.missing = missing  # names of free functions whose results may be NaN
        self.finite = finite  # inputs are finite or NaN (never infinite)

    # -- facts handling: dict key -> value ; keys ('nan',atom) ('b',atom) ('inf',atom) and intervals ('p',poly)
    def run(self, terms, facts=None, limit=4096):
        """yield (facts, values) for every consistent case"""
        stack = [dict(facts or {})]
        n = 0
        while stack:
            f = stack.pop()
            n += 1
            if n > limit:
                raise TooComplex("too many cases")
            try:
                self.memo = {}
                self.facts = f
                vals = [self.ev(t) for t in terms]
            except Need as e:
                for v in reversed(e.alts):
                    g = dict(f)
                    g[e.key] = v
                    if self.consistent(g):
                        stack.append(g)
                continue
            yield f, vals

    def consistent(self, f):
        return dbm_consistent(f, self.atoms)

    # ------------------------------------------------------------------ eval
    def ev(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.ev(x) for x in t)
            return t
        m = self.memo
        if t in m:
            return m[t]
        r = self._ev(t)
        m[t] = r
        return r

    def atom_nf(self, op, args, flags=None, term=None):
        i = self.atoms.get(op, args, flags, term)
        fl = self.atoms.flags[i]
        if fl.get("nan"):
            v = self.facts.get(("nan", i))
            if v is None:
                # lazily: only ask when it matters -> keep as possibly-nan marker
                raise Need(("nan", i), (False, True))
            if v:
                return VNAN
        if fl.get("inf") and not self.finite:
            v = self.facts.get(("inf", i))
            if v is None:
                raise Need(("inf", i), (0, 1, -1))
            if v == 1:
                return VPINF
            if v == -1:
                return VNINF
        if fl.get("boolean"):
            return self.bool_atom(i)
        return NF({((i, 1),): Fraction(1)}, P1)

    def bool_atom(self, i):
        v = self.facts.get(("b", i))
        if v is None:
            raise Need(("b", i), (True, False))
        return v

    def num(self, v):
        """coerce to numeric leaf"""
        if isinstance(v, bool):
            return nf_const(1 if v else 0)
        if isinstance(v, (NF, _Nan, _Sgn)):
            return v
        # opaque leaf
        i = self.atoms.get("obj", (v,))
        return NF({((i, 1),): Fraction(1)}, P1)

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, NF):
            s = self.sign(v)
            return s != 0
        if v is VNAN or isinstance(v, _Sgn):
            return True
        i = self.atoms.get("truth", (v,))
        return self.bool_atom(i)

    def sign(self, v):
        """sign (-1,0,1) of a non-nan NF, splitting if needed"""
        if p_is_const(v.n) and p_is_const(v.d):
            c = p_cval(v.n)
            return (c > 0) - (c < 0)
        s = self.poly_sign(v.n)
        if s == 0:
            return 0
        d = self.poly_sign(v.d)
        return s * (d or 1)

    def poly_sign(self, p):
        if p_is_const(p):
            c = p_cval(p)
            return (c > 0) - (c < 0)
        # monomial times constant with sign-known atoms
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            for a, e in m:
                sa = self.atom_sign(a)
                if sa is None:
                    break
                s *= sa ** (e % 2 or 2) if sa else 0
            else:
                return s
        else:
            # all monomials built of sign-known atoms with the same sign
            signs = set()
            for m, c in p.items():
                s = 1 if c > 0 else -1
                for a, e in m:
                    if e % 2 == 0:
                        sa = self.atom_sign(a)
                        if sa is None:
                            s = None
                            break
                        continue
                    sa = self.atom_sign(a)
                    if sa is None:
                        s = None
                        break
                    s *= sa
                signs.add(s)
                if s is None:
                    break
            if len(signs) == 1 and None not in signs:
                s = signs.pop()
                if s:
                    return s
        # canonical form: q = p minus constant, scaled so that leading coeff is 1
        c = p_cval(p)
        q = {m: v for m, v in p.items() if m}
        lead = q[max(q)]
        q = {m: v / lead for m, v in q.items()}
        thr = -c / lead
        key = ("p", tuple(sorted(q.items())))
        isint = all(self.atoms.flags[a].get("int") for m in q for a, _ in m) and all(v.denominator == 1 for v in q.values())
        s = self.cmp_threshold(key, thr, isint)
        return s if lead > 0 else -s

    def atom_sign(self, a):
        fl = self.atoms.flags[a]
        if fl.get("pos"):
            return 1
        op = self.atoms.items[a][0]
        if op == "exp":
            return 1
        if op == "sqrt":
            x = self.atoms.items[a][1][0]
            if isinstance(x, NF):
                s = self.sign(x)
                return s if s >= 0 else None
        return None

    def cmp_threshold(self, key, thr, isint):
        """sign of (q - thr); facts[key] is a tuple (lo, lo_strict, hi, hi_strict)"""
        iv = self.facts.get(key)
        if iv is None:
            iv = (None, False, None, False)
            q = dict(key[1])
            if len(q) == 1:
                (m, c), = q.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    fl = self.atoms.flags[m[0][0]]
                    if fl.get("nonneg"):
                        iv = (Fraction(0), False, None, False)
        lo, ls, hi, hs = iv
        if isint:
            if thr.denominator != 1:
                fl = Fraction(math.floor(thr))
                # q < thr  <=> q <= fl ; q > thr <=> q >= fl+1
                opts = []
                a = self._clip(iv, (None, False, fl, False))
                b = self._clip(iv, (fl + 1, False, None, False))
                opts = [(x, s) for x, s in ((a, -1), (b, 1)) if x]
            else:
                a = self._clip(iv, (None, False, thr - 1, False))
                e = self._clip(iv, (thr, False, thr, False))
                b = self._clip(iv, (thr + 1, False, None, False))
                opts = [(x, s) for x, s in ((a, -1), (e, 0), (b, 1)) if x]
        else:
            a = self._clip(iv, (None, False, thr, True))
            e = self._clip(iv, (thr, False, thr, False))
            b = self._clip(iv, (thr, True, None, False))
            opts = [(x, s) for x, s in ((a, -1), (e, 0), (b, 1)) if x]
        if len(opts) == 1:
            return opts[0][1]
        if not opts:
            return 0
        raise Need(key, tuple(x for x, _ in opts))

    @staticmethod
    def _clip(iv, jv):
        lo, ls, hi, hs = iv
        l2, ls2, h2, hs2 = jv
        if l2 is not None and (lo is None or l2 > lo or (l2 == lo and ls2)):
            lo, ls = l2, ls2
        if h2 is not None and (hi is None or h2 < hi or (h2 == hi and hs2)):
            hi, hs = h2, hs2
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            return None
        return (lo, ls, hi, hs)

    def arith2(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if a is VNAN or b is VNAN:
            return VNAN
        if isinstance(a, _Sgn) or isinstance(b, _Sgn):
            return self.inf_arith(op, a, b)
        if op == "add":
            return nf_add(a, b)
        if op == "sub":
            return nf_add(a, b, -1)
        if op == "mul":
            return nf_mul(a, b)
        if op == "div":
            if not b.n:
                # x/0: nan when x is 0, signed infinity otherwise
                if not a.n:
                    return VNAN
                s = self.sign(a)
                return VNAN if s == 0 else (VPINF if s > 0 else VNINF)
            return nf_div(a, b)
        raise AssertionError(op)

    def inf_arith(self, op, a, b):
        def sg(v):
            return (1 if v is VPINF else -1) if isinstance(v, _Sgn) else None

        sa, sb = sg(a), sg(b)
        if op == "sub":
            if sb is not None:
                b = VNINF if sb > 0 else VPINF
                sb = -sb
            op = "add"
        if op == "add":
            if sa is not None and sb is not None:
                return a if sa == sb else VNAN
            return a if sa is not None else b
        if op == "mul":
            sa = sa if sa is not None else self.sign(a)
            sb = sb if sb is not None else self.sign(b)
            s = sa * sb
            return VNAN if s == 0 else (VPINF if s > 0 else VNINF)
        if op == "div":
            if sa is not None and sb is not None:
                return VNAN
            if sa is not None:
                s = self.sign(b)
                return VPINF if sa * (s or 1) > 0 else VNINF
            return nf_const(0)
        raise AssertionError(op)

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "num":
            return nf_const(a[0])
        if op == "bool":
            return a[0]
        if op == "nan":
            return VNAN
        if op == "inf":
            return VPINF
        if op == "sym":
            return self.atom_nf("sym", (a[0],), sym_flags(t), t)
        if op == "obj":
            return a[0]
        if op in ("add", "sub", "mul", "div"):
            return self.arith2(op, self.ev(a[0]), self.ev(a[1]))
        if op == "neg":
            return self.arith2("sub", nf_const(0), self.ev(a[0]))
        if op == "ite":
            return self.ev(a[1]) if self.truth(a[0]) else self.ev(a[2])
        if op == "truth":
            return self.truth(a[0])
        if op == "not":
            return not self.truth(a[0])
        if op == "and":
            return self.truth(a[0]) and self.truth(a[1])
        if op == "or":
            return self.truth(a[0]) or self.truth(a[1])
        if op == "xor":
            return self.truth(a[0]) != self.truth(a[1])
        if op in ("lt", "le", "eq", "ne"):
            return self.compare(op, self.ev(a[0]), self.ev(a[1]))
        if op == "isnan":
            return self.ev_isnan(a[0])
        if op == "isinf":
            return isinstance(self.num(self.ev(a[0])), _Sgn)
        if op == "isfinite":
            v = self.num(self.ev(a[0]))
            return not (v is VNAN or isinstance(v, _Sgn))
        if op == "nan_to_num":
            v = self.num(self.ev(a[0]))
            if v is VNAN:
                return self.ev(a[1])
            if v is VPINF:
                return self.ev(a[2]) if a[2] is not None else self.atom_nf("obj", ("MAXFLOAT",))
            if v is VNINF:
                return self.ev(a[3]) if a[3] is not None else self.atom_nf("obj", ("MINFLOAT",))
            return v
        if op in ("max", "min"):
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            if x is VNAN or y is VNAN:
                return VNAN
            less = self.compare("lt", x, y)
            return (y if less else x) if op == "max" else (x if less else y)
        if op in ("fmax", "fmin"):
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            if x is VNAN:
                return y
            if y is VNAN:
                return x
            less = self.compare("lt", x, y)
            return (y if less else x) if op == "fmax" else (x if less else y)
        if op == "abs":
            x = self.num(self.ev(a[0]))
            if x is VNAN:
                return x
            return self.arith2("sub", nf_const(0), x) if self.compare("lt", x, nf_const(0)) else x
        if op == "pow":
            return self.ev_pow(a[0], a[1])
        if op == "sqrt":
            x = self.num(self.ev(a[0]))
            if x is VNAN or x is VPINF:
                return x
            if isinstance(x, NF) and p_is_const(x.n) and p_is_const(x.d):
                c = p_cval(x.n)
                if c >= 0:
                    r = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                        return nf_const(Fraction(*r))
            return self.atom_nf("sqrt", (x,), {"nonneg": True})
        if op == "exp":
            x = self.num(self.ev(a[0]))
            if x is VNAN:
                return x
            if isinstance(x, NF):
                if not x.n:
                    return nf_const(1)
                if p_is_const(x.d) and len(x.n) == 1:
                    (m, c), = x.n.items()
                    c = c / p_cval(x.d)
                    if len(m) == 1 and m[0][1] == 1 and self.atoms.items[m[0][0]][0] == "log" and c.denominator == 1:
                        inner = self.atoms.items[m[0][0]][1][0]
                        return self.ipow(inner, int(c))
            return self.atom_nf("exp", (x,), {"pos": True})
        if op == "log":
            x = self.num(self.ev(a[0]))
            if x is VNAN:
                return x
            if isinstance(x, NF):
                if nf_eq(x, nf_const(1)):
                    return nf_const(0)
                if x.d == P1 and len(x.n) == 1:
                    (m, c), = x.n.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms.items[m[0][0]][0] == "exp":
                        return self.atoms.items[m[0][0]][1][0]
            return self.atom_nf("log", (x,))
        if op in ("floor", "ceil") and len(a) == 1:
            v = self.num(self.ev(a[0]))
            if v is VNAN or isinstance(v, _Sgn):
                return v
            if isinstance(v, NF) and p_is_const(v.n) and p_is_const(v.d):
                return nf_const((math.floor if op == "floor" else math.ceil)(p_cval(v.n) / p_cval(v.d)))
            if isinstance(v, NF) and v.d == P1 and all(self.atoms.flags[x].get("int") for m in v.n for x, _ in m) and all(c.denominator == 1 for c in v.n.values()):
                return v
            return self.atom_nf(op, (v,))
        if op == "toint":
            v = self.ev(a[0])
            if isinstance(v, bool):
                return self.num(v)
            v = self.num(v)
            if isinstance(v, NF) and p_is_const(v.n) and p_is_const(v.d):
                return nf_const(int(p_cval(v.n)))
            if isinstance(v, NF) and v.d == P1 and all(self.atoms.flags[x].get("int") for m in v.n for x, _ in m) and all(c.denominator == 1 for c in v.n.values()):
                return v
            return self.atom_nf("toint", (v,))
        if op == "reduce":
            # reduce(kind, axis, body)
            kind, axis, body = a[0], a[1], a[2]
            return self.ev_reduce(kind, axis, body)
        if op in ("mod", "floordiv", "fmod"):
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            if x is VNAN or y is VNAN:
                return VNAN
            if isinstance(x, NF) and isinstance(y, NF) and all(p_is_const(p) for p in (x.n, x.d, y.n, y.d)) and y.n:
                p, q = p_cval(x.n), p_cval(y.n)
                return nf_const(p % q if op == "mod" else p - q * int(p / q) if op == "fmod" else Fraction(math.floor(p / q)))
            return self.atom_nf(op, (x, y))
        if op in ("app", "call"):
            args = tuple(self.ev(x) if isinstance(x, (T, tuple)) else x for x in a)
            fl = {"nan": True, "inf": True} if op == "app" and args and args[0] in self.missing else {}
            return self.atom_val(op, args, fl, t)
        # generic operator
        args = tuple(self.ev(x) if isinstance(x, (T, tuple)) else x for x in a)
        return self.atom_val(op, args, {"nan": True, "inf": True} if op == "grad" else {}, t)

    def atom_val(self, op, args, flags, term):
        return self.atom_nf(op, args, flags, term)

    def ipow(self, v, k):
        r = nf_const(1)
        base = v if k >= 0 else nf_div(nf_const(1), v)
        for _ in range(abs(k)):
            r = nf_mul(r, base)
        return r

    def ev_pow(self, b, e):
        ev_e = self.num(self.ev(e))
        if isinstance(ev_e, NF) and p_is_const(ev_e.n) and p_is_const(ev_e.d):
            k = p_cval(ev_e.n)
            vb = self.num(self.ev(b))
            if k == 0:
                return nf_const(1)
            if vb is VNAN:
                return VNAN
            if isinstance(vb, NF) and k.denominator == 1 and abs(k) <= 8:
                if k < 0 and not vb.n:
                    return VPINF
                return self.ipow(vb, int(k))
            if isinstance(vb, NF) and k == Fraction(1, 2):
                return self.ev(mk("sqrt", b))
        vb = self.num(self.ev(b))
        if vb is VNAN or ev_e is VNAN:
            return VNAN
        if isinstance(vb, NF) and p_is_const(vb.n) and p_is_const(vb.d) and p_cval(vb.n) == 1:
            return nf_const(1)
        return self.atom_nf("pow", (vb, ev_e))

    def ev_isnan(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return False
        v = self.num(v)
        return v is VNAN

    def compare(self, op, x, y):
        if op in ("eq", "ne") and not (isinstance(x, (NF, bool, _Nan, _Sgn)) and isinstance(y, (NF, bool, _Nan, _Sgn))):
            if not isinstance(x, (NF, _Nan, _Sgn)) and not isinstance(y, (NF, _Nan, _Sgn)):
                r = v_eq(x, y)
                return r if op == "eq" else not r
        x, y = self.num(x), self.num(y)
        if x is VNAN or y is VNAN:
            return op == "ne"
        if isinstance(x, _Sgn) or isinstance(y, _Sgn):
            rank = lambda v: {VPINF: 1, VNINF: -1}.get(v, 0) if isinstance(v, _Sgn) else 0
            rx, ry = rank(x), rank(y)
            return {"lt": rx < ry, "le": rx <= ry, "eq": rx == ry, "ne": rx != ry}[op]
        s = self.sign(nf_add(x, y, -1))
        return {"lt": s < 0, "le": s <= 0, "eq": s == 0, "ne": s != 0}[op]

    def ev_reduce(self, kind, axis, body):
        """canonical reduction: the body is normalised as an ordered case table of its own
        elements, since the element predicates vary along the reduced axis."""
        sub = Ctx(self.atoms, self.finite, self.missing)
        table = []
        outer = {k: v for k, v in self.facts.items() if self.outer_fact(k)}
        for f, vals in sub.run([body], outer, limit=256):
            v = vals[0]
            if isinstance(v, bool):
                v = self.num(v)
            table.append((tuple(sorted(((repr(k), repr(w)) for k, w in f.items() if k not in outer))), v))
        table = merge_table(table)
        if len(table) == 1 and table[0][0] == ():
            v = table[0][1]
            if kind in ("sum", "mean") and v is VNAN:
                return VNAN
            if kind in ("any", "all", "max", "min", "mean") and isinstance(v, NF) and (not v.n or (p_is_const(v.n) and p_is_const(v.d))):
                return v
            if kind == "sum" and isinstance(v, NF) and not v.n:
                return nf_const(0)
            if kind == "sum" and isinstance(v, NF) and v.d == P1 and len(v.n) > 1:
                r = nf_const(0)
                for m, c in v.n.items():
                    part = NF({m: Fraction(1)}, P1)
                    at = self.atom_nf("reduce", (kind, axis, ((), part)))
                    r = nf_add(r, nf_mul(nf_const(c), at))
                return r
            if kind == "sum" and isinstance(v, NF) and v.d == P1 and len(v.n) == 1:
                (m, c), = v.n.items()
                at = self.atom_nf("reduce", (kind, axis, ((), NF({m: Fraction(1)}, P1))))
                return nf_mul(nf_const(c), at)
            return self.atom_nf("reduce", (kind, axis, ((), v)))
        flat = []
        for k, v in table:
            flat.append(k)
            flat.append(v)
        return self.atom_nf("reduce", (kind, axis, tuple(flat)))

    def outer_fact(self, key):
        """facts about whole-array/scalar leaves stay; facts about element leaves are local"""
        def scalar(i):
            return bool(self.atoms.flags[i].get("scalar"))

        if key[0] in ("nan", "b", "inf"):
            return scalar(key[1])
        if key[0] == "p":
            return all(scalar(a) for m, _ in key[1] for a, _ in m)
        return False


def merge_table(table):
    """merge complementary rows so that irrelevant splits disappear"""
    rows = [(frozenset(k), v) for k, v in table]
    changed = True
    while changed:
        changed = False
        # group rows by value; a predicate key which all rows with the rest equal share is irrelevant
        for key in sorted({p[0] for k, _ in rows for p in k}):
            groups = {}
            for k, v in rows:
                rest = frozenset(p for p in k if p[0] != key)
                groups.setdefault(rest, []).append((k, v))
            # key irrelevant if in every group all values are equal
            if all(all(v_eq(v, g[0][1]) for _, v in g) for g in groups.values()):
                rows = [(rest, g[0][1]) for rest, g in groups.items()]
                changed = True
                break
    return sorted(((tuple(sorted(k)), v) for k, v in rows), key=lambda r: r[0])


def dbm_consistent(facts, atoms):
    """difference-bound consistency of the interval facts on u - v, u"""
    edges = []  # (from,to,weight,strict):  to - from <= w
    for k, iv in facts.items():
        if k[0] != "p":
            continue
        q = dict(k[1])
        lo, ls, hi, hs = iv
        names = None
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                names = (m[0][0], "0")
        elif len(q) == 2:
            items = list(q.items())
            if all(len(m) == 1 and m[0][1] == 1 for m, _ in items):
                (m1, c1), (m2, c2) = items
                if c1 == 1 and c2 == -1:
                    names = (m1[0][0], m2[0][0])
                elif c1 == -1 and c2 == 1:
                    names = (m2[0][0], m1[0][0])
        if names is None:
            continue
        u, v = names  # u - v in iv
        if hi is not None:
            edges.append((v, u, hi, hs))
        if lo is not None:
            edges.append((u, v, -lo, ls))
    if not edges:
        return True
    nodes = {e[0] for e in edges} | {e[1] for e in edges}
    for n in list(nodes):
        if n != "0" and atoms.flags[n].get("nonneg"):
            edges.append((n, "0", Fraction(0), False))
            nodes.add("0")
        elif n != "0" and atoms.flags[n].get("pos"):
            edges.append((n, "0", Fraction(0), True))
            nodes.add("0")
    dist = {(a, a): (Fraction(0), False) for a in nodes}
    for a, b, w, s in edges:
        cur = dist.get((a, b))
        if cur is None or w < cur[0] or (w == cur[0] and s):
            dist[(a, b)] = (w, s)
    for k in nodes:
        for i in nodes:
            a = dist.get((i, k))
            if a is None:
                continue
            for j in nodes:
                b = dist.get((k, j))
                if b is None:
                    continue
                w, s = a[0] + b[0], a[1] or b[1]
                cur = dist.get((i, j))
                if cur is None or w < cur[0] or (w == cur[0] and s and not cur[1]):
                    dist[(i, j)] = (w, s)
    for n in nodes:
        w, s = dist[(n, n)]
        if w < 0 or (w == 0 and s):
            return False
    return True


# ------------------------------------------------------------------- compare

def uninterpreted(v, atoms, out=None, seen=None):
    """operators of unknown meaning occurring in a leaf value, with the number of distinct applications of each"""
    if out is None:
        out, seen = Counter(), set()
    if isinstance(v, NF):
        for p in (v.n, v.d):
            for m in p:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    op, args = atoms.items[a]
                    if op == "app":
                        if not free_name(args[0]):
                            out[("app", str(args[0]))] += 1
                    elif op == "opaque":
                        out[("opaque", str(args[0]))] += 1
                    elif op not in KNOWN_OPS and op not in ("truth",):
                        out[(op,)] += 1
                    for x in args:
                        uninterpreted(x, atoms, out, seen)
    elif isinstance(v, tuple):
        for x in v:
            uninterpreted(x, atoms, out, seen)
    return out


def fact_atoms(k):
    if k[0] == "p":
        return [a for m, _ in k[1] for a, _ in m]
    return [k[1]]


def library_term(a, atoms, depth=0):
    """the atom involves a library function of unknown meaning"""
    op, args = atoms.items[a]
    if op in ("opaque", "reduce") or op == "app" and not free_name(args[0]):
        return True
    if depth > 6:
        return False
    for x in args:
        xs = [x] if isinstance(x, NF) else list(x) if isinstance(x, tuple) else []
        for y in xs:
            if isinstance(y, NF):
                for p in (y.n, y.d):
                    for m in p:
                        for b, _ in m:
                            if b != a and library_term(b, atoms, depth + 1):
                                return True
    return False


def v_show(v, atoms, depth=0):
    if isinstance(v, NF):
        s = p_show(v.n, atoms, depth)
        if v.d != P1:
            s = f"({s})/({p_show(v.d, atoms, depth)})"
        return s
    if isinstance(v, tuple):
        return "(" + ", ".join(v_show(x, atoms, depth + 1) for x in v) + ")"
    return str(v)


def p_show(p, atoms, depth=0):
    if not p:
        return "0"
    parts = []
    for m, c in sorted(p.items(), key=lambda x: x[0]):
        f = []
        if c != 1 or not m:
            f.append(str(c) if c.denominator < 1000 else f"{float(c):.6g}")
        for a, e in m:
            s = a_show(a, atoms, depth)
            f.append(s if e == 1 else f"{s}^{e}")
        parts.append("*".join(f))
    return " + ".join(parts)


def a_show(a, atoms, depth=0):
    op, args = atoms.items[a]
    if op == "sym":
        return str(args[0])
    if depth > 3:
        return op + "(…)"
    if op in ("app", "call"):
        return f"{args[0]}(" + ", ".join(v_show(x, atoms, depth + 1) for x in args[1:]) + ")"
    return op + "(" + ", ".join(v_show(x, atoms, depth + 1) for x in args) + ")"


def facts_show(f, atoms):
    out = []
    for k, v in f.items():
        if k[0] == "nan":
            out.append(f"{a_show(k[1], atoms)} is {'NaN' if v else 'a number'}")
        elif k[0] == "b":
            out.append(f"{a_show(k[1], atoms)} is {v}")
        elif k[0] == "inf":
            out.append(f"{a_show(k[1], atoms)} is {'finite' if v == 0 else '%+dinf' % v}")
        elif k[0] == "p":
            lo, ls, hi, hs = v
            e = p_show(dict(k[1]), atoms)
            if lo is not None and lo == hi:
                out.append(f"{e} = {lo}")
            else:
                l = f"{lo} {'<' if ls else '<='} " if lo is not None else ""
                h = f" {'<' if hs else '<='} {hi}" if hi is not None else ""
                out.append(l + e + h)
    return "; ".join(out) or "always"


def eq_modulo(x, y, facts):
    """equality of normal forms modulo the linear equalities among the facts"""
    if not (isinstance(x, NF) and isinstance(y, NF)):
        return False
    eqs = []
    for k, iv in facts.items():
        if k[0] == "p" and iv[0] is not None and iv[0] == iv[2]:
            eqs.append(p_add(dict(k[1]), p_const(iv[0]), -1))
    if not eqs:
        return False
    d = p_add(p_mul(x.n, y.d), p_mul(y.n, x.d), -1)
    hard = []
    for _ in range(len(eqs)):
        e = eqs.pop(0)
        piv = next((m for m in e if len(m) == 1 and m[0][1] == 1 and not any(m[0][0] == a for m2 in e if m2 != m for a, _ in m2)), None)
        if piv is None:
            hard.append(e)
            continue
        a = piv[0][0]
        rest = {m: -c / e[piv] for m, c in e.items() if m != piv}
        d = p_subst(d, a, rest)
        if d is None:
            return False
        eqs = [p_subst(q, a, rest) or {} for q in eqs]
        eqs = [q for q in eqs if q]
        hard = [q for q in (p_subst(q, a, rest) or {} for q in hard) if q]
        if not d:
            return True
        if not eqs:
            break
    # remaining (non-linear) equalities: reduce by polynomial division
    for e in hard:
        if d and all(k >= 0 for m in e for _, k in m):
            d = p_rem(d, e)
    return not d


def p_rem(n, d, limit=400):
    """remainder of a multivariate polynomial by one divisor (n itself when it has negative exponents or is too large)"""
    if any(k < 0 for m in n for _, k in m):
        return n
    lm = max(d, key=_lexkey)
    lc = d[lm]
    r, out = dict(n), {}
    for _ in range(limit):
        if not r:
            return out
        rm = max(r, key=_lexkey)
        q = m_mul(rm, tuple((a, -e) for a, e in lm))
        if any(e < 0 for _, e in q):
            out[rm] = r.pop(rm)
            continue
        r = p_add(r, p_mul({q: r[rm] / lc}, d), -1)
    return n


def p_subst(p, a, rest):
    r = {}
    for m, c in p.items():
        e = dict(m).get(a, 0)
        if e < 0:
            return None
        mm = tuple((x, k) for x, k in m if x != a)
        part = {mm: c}
        for _ in range(e):
            part = p_mul(part, rest)
        r = p_add(r, part)
    return r


def simple_fact(k, atoms):
    """a difference bound over unconstrained leaves: decided exactly by dbm_consistent"""
    q = dict(k[1])
    if len(q) > 2:
        return False
    for m, c in q.items():
        if len(m) != 1 or m[0][1] != 1:
            return False
        if atoms.items[m[0][0]][0] in ("sqrt", "exp", "log", "pow", "toint", "floor", "ceil", "mod", "fmod", "floordiv", "reduce"):
            return False
    cs = [c for c in q.values()]
    return len(q) == 1 or sorted(cs) == [-1, 1]


def witnessed(facts, atoms, tx=None, ty=None):
    """the case is not empty: exact for difference bounds, else a rational point satisfying every fact is exhibited
    (at which the two rational functions tx and ty take different values)"""
    ps = [(k, v) for k, v in facts.items() if k[0] == "p" and v != (None, False, None, False)]
    if all(simple_fact(k, atoms) for k, _ in ps):
        return True
    used = {a for k, _ in ps for m, _ in k[1] for a, _ in m}
    vals = isinstance(tx, NF) and isinstance(ty, NF)
    if vals:
        used |= {a for v in (tx, ty) for p in (v.n, v.d) for m in p for a, _ in m}

    def close(a, seen):
        if a in seen:
            return
        seen.add(a)
        if atoms.items[a][0] in ("sqrt", "exp", "log", "pow"):
            for x in atoms.items[a][1]:
                if isinstance(x, NF):
                    for p in (x.n, x.d):
                        for m in p:
                            for b, _ in m:
                                close(b, seen)

    seen = set()
    for a in used:
        close(a, seen)
    free = sorted(a for a in seen if atoms.items[a][0] not in ("sqrt", "exp", "log", "pow"))
    bools = {k[1] for k in facts if k[0] == "b"}
    rnd = random.Random(7)
    pool = [Fraction(x) for x in ("0", "1", "-1", "2", "-2", "1/2", "-1/2", "3", "-3", "1/3", "5", "-5", "1/10", "9/10", "7", "-7", "10", "100", "-100", "1/100")]
    eqs = [dict(k[1]) for k, v in ps if v[0] is not None and v[0] == v[2]]
    eqv = [v[0] for k, v in ps if v[0] is not None and v[0] == v[2]]
    # single-leaf bounds give hints
    hint = {}
    for k, v in ps:
        q = dict(k[1])
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                hint[m[0][0]] = v

    def draw(a):
        fl = atoms.flags[a]
        if a in hint:
            lo, ls, hi, hs = hint[a]
            if lo is not None and hi is not None:
                if lo == hi:
                    return lo
                x = lo + (hi - lo) * Fraction(rnd.randint(1, 19), 20)
                return Fraction(round(x)) if fl.get("int") else x
            d = Fraction(rnd.choice([0, 1, 2, 3, 5, 10])) if fl.get("int") else Fraction(rnd.randint(1, 60), rnd.choice([1, 2, 5, 10, 20]))
            if lo is not None:
                return lo + d
            if hi is not None:
                return hi - d
        x = rnd.choice(pool)
        if fl.get("int"):
            x = Fraction(rnd.randint(-3, 12))
        if fl.get("nonneg") or fl.get("pos"):
            x = abs(x) or Fraction(1)
        return x

    def val(p, env):
        t = 0
        for m, c in p.items():
            x = c
            for a, e in m:
                x = x * get(a, env) ** e
            t += x
        return t

    def get(a, env):
        if a in env:
            return env[a]
        op, args = atoms.items[a]
        xs = [val(x.n, env) / val(x.d, env) for x in args if isinstance(x, NF)]
        r = {"sqrt": lambda x: math.sqrt(x), "exp": lambda x: math.exp(x), "log": lambda x: math.log(x), "pow": lambda x, y: float(x) ** float(y)}[op](*xs)
        if isinstance(r, complex):
            raise ValueError
        env[a] = r
        return r

    for _ in range(3000):
        env = {a: draw(a) for a in free}
        try:
            for q, v in zip(eqs, eqv):
                for m in q:
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in env and not any(m[0][0] == a for m2 in q if m2 != m for a, _ in m2) and not any(m[0][0] == a for q2 in eqs if q2 is not q for m2 in q2 for a, _ in m2):
                        rest = {m2: c for m2, c in q.items() if m2 != m}
                        env[m[0][0]] = (v - val(rest, dict(env))) / q[m]
                        break
            env = {a: env[a] for a in free}
            ok = True
            for k, (lo, ls, hi, hs) in ps:
                x = val(dict(k[1]), env)
                if lo is not None and (x < lo or (ls and x <= lo)) or hi is not None and (x > hi or (hs and x >= hi)):
                    ok = False
                    break
            if ok and vals:
                u, w = (val(v.n, env) / val(v.d, env) for v in (tx, ty))
                ok = u != w if isinstance(u, Fraction) and isinstance(w, Fraction) else abs(u - w) > 1e-9 * (1 + abs(u) + abs(w))
            if ok:
                return True
        except (ValueError, ZeroDivisionError, OverflowError, KeyError):
            continue
    return False


class Verdict:
    def __init__(self, status, cases=0, detail=""):
        self.status = status  # "equal" | "differ" | "undecided"
        self.cases = cases
        self.detail = detail

    def __repr__(self):
        return f"<{self.status} cases={self.cases} {self.detail}>"


def compare(a, b, assume=(), finite=True, limit=20000, missing=()):
    """compare two terms (or equally shaped tuples of terms) in every case.

    assume: terms that must be true (cases violating one are skipped)."""
    ctx = Ctx(finite=finite, missing=missing)
    n = 0
    undec = None
    try:
        terms = [*assume, a, b]
        for facts, vals in ctx.run(terms, limit=limit):
            pre = vals[: len(assume)]
            if not all(v is True or (isinstance(v, NF)) for v in pre):
                continue
            n += 1
            x, y = vals[-2], vals[-1]
            x2 = ctx.num(x) if isinstance(x, bool) and not isinstance(y, bool) else x
            y2 = ctx.num(y) if isinstance(y, bool) and not isinstance(x, bool) else y
            if v_eq(x2, y2) or eq_modulo(x2, y2, facts):
                continue
            ux, uy = uninterpreted(x2, ctx.atoms), uninterpreted(y2, ctx.atoms)
            det = f"case [{facts_show(facts, ctx.atoms)}]: code gives {v_show(x, ctx.atoms)}, required {v_show(y, ctx.atoms)}"
            # a case decided by a predicate of unknown meaning is not a proof of difference
            opaque_pred = any(
                k[0] == "b" and ctx.atoms.items[k[1]][0] not in ("sym", "call", "item", "attr", "elem", "truth")
                for k in facts
            )
            if not opaque_pred:
                opaque_pred = any(library_term(a, ctx.atoms) for k in facts for a in fact_atoms(k))
            if ux != uy or opaque_pred or not witnessed(facts, ctx.atoms, x2, y2):
                undec = undec or det + f" (uninterpreted: {sorted(dict(ux - uy)) + sorted(dict(uy - ux))})"
                continue
            return Verdict("differ", n, det)
    except TooComplex as e:
        return Verdict("undecided", n, str(e))
    except ZeroDivisionError:
        return Verdict("undecided", n, "division by a vanishing form")
    if undec:
        return Verdict("undecided", n, undec)
    if n == 0:
        return Verdict("undecided", 0, "no consistent case")
    return Verdict("equal", n)
