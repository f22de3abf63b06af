"""Verified enclosures of extracted formulas: outward-rounded intervals and truncated Taylor models in one variable.

An interval is a pair of integers scaled by 2**-P. A Taylor model over t in [-r, r] is (coefficients, remainder)."""
from fractions import Fraction as Fr
from math import factorial
import core
from core import atom_by_id, Poly

P = 160
S = 1 << P
N = 10                      # order of the Taylor models


class NoEnclosure(Exception):
    pass


# ------------------------------------------------------------------ intervals
def iv(q):
    q = Fr(q)
    n = q.numerator * S
    lo = n // q.denominator
    return (lo, lo if lo * q.denominator == n else lo + 1)


def hull(a, b):
    a, b = iv(a), iv(b)
    return (min(a[0], b[0]), max(a[1], b[1]))


ZI = (0, 0)


def iadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def ineg(a):
    return (-a[1], -a[0])


def imul(a, b):
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(p) >> P, -((-max(p)) >> P))


def iinv(a):
    if a[0] <= 0 <= a[1]:
        raise NoEnclosure("division by an interval containing zero")
    return (S * S // a[1], -(-S * S // a[0]))


def idiv(a, b):
    return imul(a, iinv(b))


def mag(a):
    return max(abs(a[0]), abs(a[1]))


def idivn(a, n):
    """division by a positive integer"""
    return (a[0] // n, -((-a[1]) // n))


def rows(a):
    return Fr(a[0], S), Fr(a[1], S)


PI = hull(Fr("3.14159265358979323846264338327950288419716939937510582097"), Fr("3.14159265358979323846264338327950288419716939937510582098"))


def isin(x):
    """sine of a (narrow) interval, |x| <= 8"""
    return _trig(x, 1)


def icos(x):
    return _trig(x, 0)


def _trig(x, odd):
    s, p = ZI, x if odd else iv(1)
    x2 = imul(x, x)
    n = odd
    while n < 90:
        t = idivn(p, factorial(n))
        s = iadd(s, t if (n // 2) % 2 == 0 else ineg(t))
        p = imul(p, x2)
        n += 2
    e = mag(idivn(p, factorial(n))) + 2
    return (s[0] - e, s[1] + e)


def isqrt_point(q):
    """enclosure of the square root of a non-negative rational"""
    import math
    n = math.isqrt(q.numerator * S * S // q.denominator)
    return (n, n + 1)


def iatan(q):
    """enclosure of atan(q), q rational"""
    if abs(q) > 1:
        h = imul(PI, iv(Fr(1, 2)))
        a = iatan(1 / q)
        return iadd(h if q > 0 else ineg(h), ineg(a))
    if abs(q) > Fr(2, 5):
        # atan q = atan c + atan((q-c)/(1+qc)), c = +-1/2
        c = Fr(1, 2) if q > 0 else Fr(-1, 2)
        h = _atan_series(c)
        return iadd(h, iatan_small((q - c) / (1 + q * c)))
    return iatan_small(q)


def iatan_small(q):
    return _atan_series(q)


def _atan_series(q):
    x = iv(q)
    x2 = imul(x, x)
    s, p = ZI, x
    n = 1
    while n < 220:
        t = idivn(p, n)
        s = iadd(s, t if (n // 2) % 2 == 0 else ineg(t))
        p = imul(p, x2)
        n += 2
    e = mag(p) + 2
    return (s[0] - e, s[1] + e)


# ------------------------------------------------------------------ Taylor models: ([c0..cN], remainder), with |t| <= r
class TM:
    __slots__ = ("c", "e", "r")

    def __init__(self, c, e, r):
        self.c, self.e, self.r = c, e, r

    def __add__(self, o):
        n = max(len(self.c), len(o.c))
        g = lambda c, i: c[i] if i < len(c) else ZI
        return TM([iadd(g(self.c, i), g(o.c, i)) for i in range(n)], iadd(self.e, o.e), self.r)

    def __neg__(self):
        return TM([ineg(x) for x in self.c], ineg(self.e), self.r)

    def __sub__(self, o):
        return self + (-o)

    def body(self):
        """range of the polynomial part"""
        s, p = ZI, iv(1)
        ri = self.r
        for i, c in enumerate(self.c):
            if i == 0:
                s = iadd(s, c)
                continue
            p = imul(p, (ri[1], ri[1]))
            m = (-p[1], p[1]) if i % 2 else (0, p[1])
            s = iadd(s, imul(c, m))
        return s

    def range(self):
        return iadd(self.body(), self.e)

    def __mul__(self, o):
        full = [ZI] * (len(self.c) + len(o.c) - 1)
        for i, a in enumerate(self.c):
            if a == ZI:
                continue
            for j, b in enumerate(o.c):
                full[i + j] = iadd(full[i + j], imul(a, b))
        e = iadd(iadd(imul(self.body(), o.e), imul(o.body(), self.e)), imul(self.e, o.e))
        keep = full[:N + 1]
        p = iv(1)
        for i in range(len(full)):
            if i:
                p = imul(p, (self.r[1], self.r[1]))
            if i > N:
                e = iadd(e, imul(full[i], (-p[1], p[1])))
        return TM(keep, e, self.r)

    def inverse(self):
        c0 = self.c[0]
        k = iinv(c0)
        u = TM([ZI] + [imul(x, k) for x in self.c[1:]], imul(self.e, k), self.r)   # p = c0 (1+u), roughly
        # c0 is a narrow interval; 1/p = k * 1/(1+u)
        m = mag(u.range())
        if m >= S:
            raise NoEnclosure("division by a value that may be zero")
        s = TM([iv(1)], ZI, self.r)
        w = s
        for i in range(1, N + 1):
            w = w * (-u)
            s = s + w
        mm = m
        for _ in range(N):
            mm = -((-mm * m) >> P)
        e = -(-mm * S // (S - m))
        s = TM(s.c, iadd(s.e, (-e, e)), self.r)
        return TM([imul(x, k) for x in s.c], imul(s.e, k), self.r)

    def power(self, n):
        if n < 0:
            return self.inverse().power(-n)
        r = TM([iv(1)], ZI, self.r)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r


def tconst(x, r):
    return TM([x], ZI, r)


def tvar(c, r):
    """the identity c + t"""
    return TM([iv(c), iv(1)], ZI, r)


def tsin(c, r):
    x = iv(c)
    s, k = isin(x), icos(x)
    d = [s, k, ineg(s), ineg(k)]
    co = [idivn(d[i % 4], factorial(i)) for i in range(N + 1)]
    p = iv(1)
    for _ in range(N + 1):
        p = imul(p, (r[1], r[1]))
    e = idivn(p, factorial(N + 1))[1] + 1
    return TM(co, (-e, e), r)


def tatan(c, r):
    """atan(c + t): integrates the model of 1/(1+x^2)"""
    x = tvar(c, r)
    g = (tconst(iv(1), r) + x * x).inverse()
    co = [iatan(c)]
    for i, a in enumerate(g.c):
        co.append(idivn(a, i + 1))
    e = imul(g.e, (-r[1], r[1]))
    e = (min(e[0], -abs(e[0])), max(e[1], abs(e[1])))
    m = max(abs(e[0]), abs(e[1]))
    last = co[N + 1] if len(co) > N + 1 else ZI
    p = iv(1)
    for _ in range(N + 1):
        p = imul(p, (r[1], r[1]))
    ex = imul(last, (-p[1], p[1]))
    return TM(co[:N + 1], iadd((-m, m), ex), r)


# ------------------------------------------------------------------ evaluation of extracted polynomials
def evaluate(p, env, r, memo=None):
    """Taylor model of Poly p; env: atom id -> TM"""
    if memo is None:
        memo = {}
    s = None
    for m, c in p.t:
        t = tconst(iv(c), r)
        for a, e in m:
            k = (a, e)
            if k not in memo:
                memo[k] = atom_tm(a, env, r, memo).power(e)
            t = t * memo[k]
        s = t if s is None else s + t
    return s if s is not None else tconst(ZI, r)


def atom_tm(a, env, r, memo):
    if a in env:
        return env[a]
    if ("a", a) in memo:
        return memo["a", a]
    at = atom_by_id(a)
    if at.name == "pi":
        t = tconst(PI, r)
    elif at.name == "inv":
        t = evaluate(at.args[0], env, r, memo).inverse()
    elif at.name == "spow" or at.kind == "spow":
        raise NoEnclosure("symbolic power")
    else:
        raise NoEnclosure("no enclosure for %s" % at.name)
    memo["a", a] = t
    return t


def possible(pc, env, r, memo):
    """may the (sign) conditions hold somewhere on the interval?"""
    for c, i in pc:
        if c.kind != "sign":
            continue
        try:
            lo, hi = evaluate(c.key, env, r, memo).range()
        except NoEnclosure:
            continue
        if (i == 0 and lo >= 0) or (i == 2 and hi <= 0) or (i == 1 and (lo > 0 or hi < 0)):
            return False
    return True


def bound(cells, lo, hi, make_env, truth, tol, pieces, depth=26):
    """For every s in [lo, hi] and every cell possible there: |leaf - truth| <= tol (tol: interval-valued function of (c, r)).

    make_env(c, r) -> env; truth(c, r) -> TM. Returns None or (interval, cell, leaf, error enclosure). Also the count of boxes."""
    todo = []
    lo, hi = Fr(lo), Fr(hi)
    w = (hi - lo) / pieces
    for k in range(pieces):
        todo.append((lo + w * k, lo + w * (k + 1), 0, None))
    boxes = 0
    worst = 0
    while todo:
        a, b, d, sub = todo.pop()
        c = (a + b) / 2
        r = iv((b - a) / 2)
        env = make_env(c, r)
        tr = truth(c, r)
        tl = tol(c, r)
        memo = {}
        boxes += 1
        left = []
        for cell in (sub if sub is not None else cells):
            pc, leaf = cell
            if not possible(pc, env, r, memo):
                continue
            msg = None
            if not isinstance(leaf, Poly):
                msg = str(leaf)
            else:
                try:
                    e = (evaluate(leaf, env, r, memo) - tr).range()
                    if mag(e) <= tl:
                        worst = max(worst, mag(e))
                        continue
                    msg = "error within [%.4g, %.4g]" % (e[0] / S, e[1] / S)
                except NoEnclosure as x:
                    msg = str(x)
            left.append((cell, msg))
        if left:
            if d >= depth:
                (pc, leaf), msg = left[0]
                return (a, b), pc, leaf, msg, boxes, worst / S
            sub2 = [x for x, _m in left]
            todo.append((a, c, d + 1, sub2))
            todo.append((c, b, d + 1, sub2))
    return None, None, None, None, boxes, worst / S
