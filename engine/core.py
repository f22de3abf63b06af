"""Value domain: hash-consed atoms, ring-normal polynomials over them, and decision diagrams (gated values).

A scalar abstract value is a decision diagram whose internal nodes are comparison outcomes and whose leaves are
polynomials (numbers), booleans, references, ...  Merging two control-flow paths builds a gate (phi) on the branch
condition, so one value describes the result on every path at once.
"""
import math
from fractions import Fraction as Fr

# ------------------------------------------------------------------ atoms
_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("id", "kind", "name", "args", "nonneg", "isint", "info")

    def __repr__(self):
        return atom_str(self)


def atom(kind, name, args=(), nonneg=False, isint=False, info=None):
    """Interned atom. args: tuple of Poly (or hashables)."""
    key = (kind, name, args) if kind != "var" else (kind, name, args, nonneg, isint)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atom_list)
        a.kind, a.name, a.args = kind, name, args
        a.nonneg, a.isint, a.info = nonneg, isint, info
        _atoms[key] = a
        _atom_list.append(a)
    else:
        if nonneg:
            a.nonneg = True
        if isint:
            a.isint = True
        if info is not None and a.info is None:
            a.info = info
    return a


_fresh = [0]


def fresh(name, **kw):
    _fresh[0] += 1
    return atom("fresh", "%s#%d" % (name, _fresh[0]), **kw)


def atom_by_id(i):
    return _atom_list[i]


def atom_str(a):
    if a.kind in ("var", "fresh", "const"):
        return a.name
    return "%s(%s)" % (a.name, ", ".join(str(x) for x in a.args))


# ------------------------------------------------------------------ polynomials
class Poly:
    """Immutable polynomial; terms: tuple of (mono, coeff), mono: tuple of (atom id, exponent)."""
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t
        self.h = hash(t)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.h == o.h and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return poly_str(self)

    # arithmetic -----------------------------------------------------
    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t:
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return mk(d)

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly(tuple((m, c * k) for m, c in self.t))

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return renorm(mk(d))

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        return self.t[0][1] if self.t else Fr(0)

    def atoms(self, deep=False):
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        if deep:
            todo = list(s)
            while todo:
                a = todo.pop()
                for x in _atom_list[a].args:
                    if isinstance(x, Poly):
                        for m, _ in x.t:
                            for b, _e in m:
                                if b not in s:
                                    s.add(b)
                                    todo.append(b)
        return s


def mk(d):
    return Poly(tuple(sorted(d.items())))


def num(v):
    v = Fr(v)
    return Poly((((), v),)) if v else ZERO


ZERO = Poly(())
ONE = Poly((((), Fr(1)),))


def pa(a):
    """Polynomial of one atom."""
    return Poly(((((a.id, 1),), Fr(1)),))


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def renorm(p):
    """Rewrites: sqrt(q)^2 -> q, merge symbolic powers of equal bases."""
    todo = None
    for m, c in p.t:
        nsp = 0
        for a, e in m:
            at = _atom_list[a]
            if at.name == "sqrt" and e >= 2 and at.kind == "fn":
                todo = True
            if at.kind == "spow":
                nsp += 1
                if e != 1:
                    todo = True
        if nsp > 1:
            todo = True
    if not todo:
        return p
    r = ZERO
    for m, c in p.t:
        term = num(c)
        sp = {}
        rest = []
        for a, e in m:
            at = _atom_list[a]
            if at.name == "sqrt" and at.kind == "fn" and e >= 2:
                term = mulraw(term, ppow(at.args[0], e // 2))
                if e % 2:
                    rest.append((a, 1))
            elif at.kind == "spow":
                b, k = at.args
                sp[b] = sp.get(b, ZERO) + k.scale(Fr(e))
            else:
                rest.append((a, e))
        t2 = Poly(((tuple(sorted(rest)), Fr(1)),))
        for b, k in sp.items():
            t2 = mulraw(t2, spow(b, k))
        r = r + mulraw(term, t2)
    return r


def mulraw(a, b):
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return mk(d)


def factor_int(n):
    f = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def spow(base, k):
    """base ** k for a symbolic integer k (Poly). base: Poly that is a positive rational constant or a monomial."""
    if k.is_const():
        n = k.const()
        if n.denominator == 1:
            return ipow(base, int(n))
    if base.is_const():
        c = base.const()
        if c == 1:
            return ONE
        if c > 0:
            r = ONE
            fs = {}
            for pr, e in factor_int(c.numerator).items():
                fs[pr] = fs.get(pr, 0) + e
            for pr, e in factor_int(c.denominator).items():
                fs[pr] = fs.get(pr, 0) - e
            for pr, e in sorted(fs.items()):
                r = mulraw(r, _spow1(num(pr), k.scale(Fr(e))))
            return r
    if len(base.t) == 1 and base.t[0][1] == 1:
        r = ONE
        for a, e in base.t[0][0]:
            r = mulraw(r, _spow1(Poly(((((a, 1),), Fr(1)),)), k.scale(Fr(e))))
        return r
    return _spow1(base, k)


def _spow1(b, k):
    # split off the constant integer part of k
    c = Fr(0)
    rest = ZERO
    for m, v in k.t:
        if m == ():
            c = v
        else:
            rest = rest + Poly(((m, v),))
    r = ONE
    if c.denominator == 1:
        r = ipow(b, int(c))
    else:
        rest = k
    if rest.t:
        r = mulraw(r, pa(atom("spow", "pow", (b, rest), nonneg=b.is_const() and b.const() > 0)))
    return r


def ipow(b, n):
    if n >= 0:
        if len(b.t) == 1:
            m, c = b.t[0]
            return Poly(((tuple((a, e * n) for a, e in m), c ** n),)) if n else ONE
        return ppow(b, n)
    return inverse(ipow(b, -n))


def lead(p):
    return p.t[0][1]


def monic(p):
    """(unit, canonical) with p = unit*canonical, leading coefficient of canonical is 1."""
    k = p.t[0][1]
    return k, p.scale(1 / k)


def inverse(p):
    """1/p in the field of fractions."""
    if not p.t:
        return pa(atom("fn", "inv", (ZERO,)))
    if len(p.t) == 1:
        m, c = p.t[0]
        return renorm(Poly(((tuple((a, -e) for a, e in m), 1 / c),)))
    k, q = monic(p)
    # common monomial factor
    common = None
    for m, _ in q.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
            common = {a: e for a, e in common.items() if e}
    r = num(1 / k)
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        q = mulraw(q, Poly(((cm, Fr(1)),)))
        r = mulraw(r, Poly(((cm, Fr(1)),)))
        k2, q = monic(q)
        r = r.scale(1 / k2)
    return mulraw(r, pa(atom("fn", "inv", (q,))))


def is_zero_frac(p):
    """Is p zero as an element of the field of fractions (inv atoms and negative powers cleared)?"""
    q = numerator(p)
    return q is not None and not q.t


def numerator(p, depth=0):
    """p times all its denominators, so p = 0 exactly where it is 0 among the points at which p has a value; None: gave up"""
    if not p.t:
        return p
    if depth > 12:
        return None
    # negative monomial powers
    neg = {}
    for m, _ in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    if neg:
        p = mulraw(p, Poly(((tuple(sorted((a, -e) for a, e in neg.items())), Fr(1)),)))
    inv = None
    for m, _ in p.t:
        for a, e in m:
            at = _atom_list[a]
            if at.kind == "fn" and at.name == "inv" and at.args[0].t:
                inv = a if inv is None else max(inv, a)
    if inv is None:
        p = renorm(p)
        if any(e < 0 for m, _ in p.t for _a, e in m):
            return numerator(p, depth + 1)
        return p
    q = _atom_list[inv].args[0]
    k = max(e for m, _ in p.t for a, e in m if a == inv)
    r = ZERO
    for m, c in p.t:
        d = dict(m)
        e = d.pop(inv, 0)
        r = r + mulraw(Poly(((tuple(sorted(d.items())), c),)), ppow(q, k - e))
    return numerator(r, depth + 1)


def fstr(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fr(f) == c and len(repr(f)) <= 12:
        return repr(f)
    if len(str(c)) <= 12:
        return str(c)
    return "%.9g" % f


def poly_str(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t[:12]:
        f = []
        for a, e in m:
            s = atom_str(_atom_list[a])
            f.append(s if e == 1 else "%s^%d" % (s, e))
        if not f:
            s = fstr(c)
        elif c == 1:
            s = "*".join(f)
        elif c == -1:
            s = "-" + "*".join(f)
        else:
            s = fstr(c) + "*" + "*".join(f)
        out.append(s)
    s = " + ".join(out).replace("+ -", "- ")
    if len(p.t) > 12:
        s += " + ..."
    return s


# ------------------------------------------------------------------ substitution
_rebuilders = {}


def rebuilder(name):
    def deco(f):
        _rebuilders[name] = f
        return f
    return deco


def psubst(p, s, memo=None):
    """Substitute atoms (by id) by polynomials, also inside atom arguments.  Result is a Poly."""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t:
        term = num(c)
        for a, e in m:
            v = _asubst(a, s, memo)
            term = term * ipow(v, e) if e != 1 else term * v
        out = out + term
    memo[p] = out
    return out


def _asubst(a, s, memo):
    if a in s:
        return s[a]
    at = _atom_list[a]
    k = ("a", a)
    if k in memo:
        return memo[k]
    r = None
    if any(isinstance(x, Poly) for x in at.args):
        na = tuple(psubst(x, s, memo) if isinstance(x, Poly) else x for x in at.args)
        if na != at.args:
            f = _rebuilders.get(at.name)
            if at.kind == "spow":
                r = spow(*na)
            elif at.name == "inv" and at.kind == "fn":
                r = inverse(na[0])
            elif f:
                r = f(at, na)
            if r is None:
                r = pa(atom(at.kind, at.name, na, at.nonneg, at.isint, at.info))
    if r is None:
        r = Poly(((((a, 1),), Fr(1)),))
    memo[k] = r
    return r


# ------------------------------------------------------------------ conditions and diagrams
_conds = {}
_cond_list = []


class Cond:
    """kind 'sign': three outcomes (neg, zero, pos) of a monic polynomial; 'bool': two outcomes (false, true)."""
    __slots__ = ("idx", "kind", "key", "n")

    def __repr__(self):
        return "sign(%s)" % (self.key,) if self.kind == "sign" else str(self.key)


def cond(kind, key):
    k = (kind, key)
    c = _conds.get(k)
    if c is None:
        c = Cond()
        c.idx = len(_cond_list)
        c.kind, c.key = kind, key
        c.n = 3 if kind == "sign" else 2
        _conds[k] = c
        _cond_list.append(c)
    return c


class Dg:
    """Decision diagram node (hash-consed)."""
    __slots__ = ("c", "k", "v", "id")

    def __repr__(self):
        return dg_str(self)


_leaves = {}
_nodes = {}
_ids = [0]


def leaf(v):
    key = (type(v).__name__, v)
    d = _leaves.get(key)
    if d is None:
        d = Dg()
        d.c, d.k, d.v = None, None, v
        d.id = _ids[0]
        _ids[0] += 1
        _leaves[key] = d
    return d


def node(c, kids):
    k0 = kids[0]
    for k in kids:
        if k is not k0:
            break
    else:
        return k0
    key = (c.idx,) + tuple(k.id for k in kids)
    d = _nodes.get(key)
    if d is None:
        d = Dg()
        d.c, d.k, d.v = c, tuple(kids), None
        d.id = _ids[0]
        _ids[0] += 1
        _nodes[key] = d
    return d


TRUE = leaf(True)
FALSE = leaf(False)


def dnum(v):
    return leaf(num(v))


def dp(p):
    return leaf(p)


def dg_str(d, depth=0):
    if d.c is None:
        return str(d.v)
    if depth > 4:
        return "..."
    if d.c.kind == "sign":
        ks = [dg_str(k, depth + 1) for k in d.k]
        return "{%s <0: %s | =0: %s | >0: %s}" % (d.c.key, ks[0], ks[1], ks[2])
    return "{%s ? %s : %s}" % (d.c.key, dg_str(d.k[1], depth + 1), dg_str(d.k[0], depth + 1))


class TooBig(Exception):
    pass


LIMIT = 200000


def applyn(f, ds):
    """Apply f to the leaf payloads of several diagrams; f returns a Dg."""
    memo = {}
    cnt = [0]

    def rec(ds):
        key = tuple(d.id for d in ds)
        r = memo.get(key)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > LIMIT:
            raise TooBig()
        top = None
        for d in ds:
            if d.c is not None and (top is None or d.c.idx < top.idx):
                top = d.c
        if top is None:
            r = f(*[d.v for d in ds])
        else:
            kids = []
            for i in range(top.n):
                kids.append(rec(tuple(d.k[i] if d.c is top else d for d in ds)))
            r = gnode(top, kids)
        memo[key] = r
        return r
    return rec(tuple(ds))


def gnode(c, kids):
    """node() that stays ordered even if f produced new (larger or smaller) conditions in the kids."""
    for k in kids:
        if k.c is not None and k.c.idx <= c.idx:
            # reorder through ite on the outcomes
            r = None
            for i in reversed(range(c.n)):
                g = outcome(c, i)
                r = kids[i] if r is None else ite(g, kids[i], r)
            return r
    return node(c, kids)


def outcome(c, i):
    return node(c, [TRUE if j == i else FALSE for j in range(c.n)])


def ite(g, a, b):
    """Gate: a where g else b. Pure BDD operation (no new conditions)."""
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    memo = {}

    def rec(g, a, b):
        if g.c is None:
            return a if g.v else b
        if a is b:
            return a
        key = (g.id, a.id, b.id)
        r = memo.get(key)
        if r is not None:
            return r
        if len(memo) > LIMIT:
            raise TooBig()
        top = g.c
        for d in (a, b):
            if d.c is not None and d.c.idx < top.idx:
                top = d.c
        kids = []
        for i in range(top.n):
            kids.append(rec(g.k[i] if g.c is top else g, a.k[i] if a.c is top else a, b.k[i] if b.c is top else b))
        r = node(top, kids)
        memo[key] = r
        return r
    return rec(g, a, b)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def simplify_under(d, g):
    """Cofactor d by the care set g (Coudert-Madre restrict): outside g the result is arbitrary."""
    if g is FALSE or g is TRUE or d.c is None:
        return d
    memo = {}

    def rec(d, g):
        if d.c is None or g is TRUE:
            return d
        if g is FALSE:
            return None
        key = (d.id, g.id)
        if key in memo:
            return memo[key]
        if g.c is not None and g.c.idx < d.c.idx:
            # drop g's variable
            u = FALSE
            for k in g.k:
                u = OR(u, k)
            r = rec(d, u)
        else:
            top = d.c
            kids = []
            for i in range(top.n):
                gi = g.k[i] if g.c is top else g
                kids.append(rec(d.k[i], gi) if gi is not FALSE else None)
            live = [k for k in kids if k is not None]
            if not live:
                r = None
            elif all(k is live[0] for k in live):
                r = live[0]
            else:
                fill = live[0]
                r = node(top, [k if k is not None else fill for k in kids])
        memo[key] = r
        return r
    r = rec(d, g)
    return d if r is None else r


def leaves(d):
    """The distinct leaf payloads of a diagram (each once, however many paths lead to it)."""
    seen, out, vals = set(), [], set()
    st = [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.c is None:
            out.append(x.v)
        else:
            st.extend(reversed(x.k))
    return out


def conds(d):
    """The distinct conditions of a diagram."""
    seen, out, st = set(), {}, [d]
    while st:
        x = st.pop()
        if x.id not in seen and x.c is not None:
            seen.add(x.id)
            out[x.c] = 1
            st.extend(x.k)
    return list(out)


def leaf_guards(d):
    """(guard, payload) for each distinct leaf"""
    for v in leaves(d):
        yield applyn(lambda x: TRUE if x is v or x == v else FALSE, [d]), v


def cells(d, pc=()):
    """Enumerate (path constraints, leaf payload). pc: tuple of (cond, outcome)."""
    if d.c is None:
        yield pc, d.v
        return
    for i in range(d.c.n):
        yield from cells(d.k[i], pc + ((d.c, i),))


_sqmemo = {}


def square_root(p):
    """q with p = q*q (as polynomials with rational coefficients, at least two terms in q), or None"""
    if p in _sqmemo:
        return _sqmemo[p]
    _sqmemo[p] = None
    if len(p.t) < 3 or len(p.t) > 15 or any(e < 0 for m, _ in p.t for _a, e in m):
        return None

    def key(m):           # lexicographic in the atoms: a monomial order
        return tuple((-a, e) for a, e in m)

    def head(x):
        return max(x.t, key=lambda t: key(t[0]))
    m, c = head(p)
    if any(e % 2 for _a, e in m) or c <= 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    hm, hc = tuple((a, e // 2) for a, e in m), Fr(n, d)
    q = Poly(((hm, hc),))
    inv = Poly(((tuple((a, -e) for a, e in hm), 1 / (2 * hc)),))
    for _ in range(6):
        r = p - mulraw(q, q)
        if not r.t:
            _sqmemo[p] = q
            return q
        t = mulraw(Poly((head(r),)), inv)
        if len(t.t) != 1 or any(e < 0 for _a, e in t.t[0][0]):
            return None
        q = q + t
    return None


def sign_cases(p, neg, zero, pos):
    """Diagram choosing by the sign of polynomial p."""
    if p.is_const():
        c = p.const()
        return neg if c < 0 else (zero if c == 0 else pos)
    for s in (1, -1):
        q = square_root(p.scale(s)) if len(p.t) > 2 else None
        if q is not None:
            return sign_cases(q, pos, zero, pos) if s > 0 else sign_cases(q, neg, zero, neg)
    if all(_nonneg_mono(m) and c > 0 for m, c in p.t):
        if p.t[0][0] == () or any(m == () for m, _ in p.t):
            return pos
        neg = None
    elif all(_nonneg_mono(m) and c < 0 for m, c in p.t):
        if any(m == () for m, _ in p.t):
            return neg
        pos = None
    k, q = monic(p)
    if k < 0:
        neg, pos = pos, neg
    c = cond("sign", q)
    # impossible outcomes: mirror the neighbouring one
    if neg is None:
        neg = zero
    if pos is None:
        pos = zero
    return gnode(c, [neg, zero, pos])


def _nonneg_mono(m):
    for a, e in m:
        if e % 2 and not _atom_list[a].nonneg:
            return False
    return True


def dsubst(d, s):
    """Substitute atoms in a diagram (in leaves and in conditions). s: atom id -> Poly."""
    memo = {}
    pm = {}

    def lf(v):
        return leaf(vsubst(v, s, pm))

    def rec(d):
        r = memo.get(d.id)
        if r is not None:
            return r
        if d.c is None:
            r = lf(d.v)
        else:
            kids = [rec(k) for k in d.k]
            if d.c.kind == "sign":
                r = sign_cases(psubst(d.c.key, s, pm), *kids)
            else:
                key = vsubst(d.c.key, s, pm)
                r = gnode(cond(d.c.kind, key), kids)
        memo[d.id] = r
        return r
    return rec(d)


def vsubst(v, s, pm=None):
    if isinstance(v, Poly):
        return psubst(v, s, pm if pm is not None else {})
    if isinstance(v, tuple):
        return tuple(vsubst(x, s, pm) for x in v)
    return v
