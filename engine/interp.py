"""Value-flow analysis of MIR bodies: every path at once, gated (phi) values, loops summarised by recurrences.

Nothing of the analysed crate is executed: statements are transfer functions over the value domain of core.py, a
two-way branch evaluates both arms and joins them at the immediate post-dominator with gates on the branch condition."""
from fractions import Fraction as Fr
import re
import struct
import core
import watch
import fm
from core import (Poly, num, pa, atom, leaf, dp, dnum, node, cond, outcome, ite, AND, OR, NOT, TRUE, FALSE, ZERO, ONE,
                  applyn, sign_cases, simplify_under, cells, Dg, psubst, dsubst, inverse, spow, ipow, fresh, atom_by_id)
import mir


class Unsupported(Exception):
    """A construct outside the analysed fragment; carries its location so that the check can report it."""

    def __init__(self, what, loc=None):
        Exception.__init__(self, what)
        self.what, self.loc = what, loc


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.f)) + ")"


class Enum:
    """tag: Dg over python ints (variant index); vs: {variant: Agg}"""
    __slots__ = ("tag", "vs")

    def __init__(self, tag, vs):
        self.tag, self.vs = tag, vs

    def __repr__(self):
        return "enum[%r %r]" % (self.tag, self.vs)


UNIT = Agg(())

PI = atom("const", "pi", info={"lo": fm.PI_LO, "hi": fm.PI_HI, "slo": True, "shi": True}, nonneg=True)
PIP = pa(PI)
PI_DEC = Fr("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")


def vite(g, a, b):
    if a is b or g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Dg) and isinstance(b, Dg):
        return ite(g, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Agg(vite(g, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enum) and isinstance(b, Enum):
        vs = dict(b.vs)
        for k, v in a.vs.items():
            vs[k] = vite(g, v, vs[k]) if k in vs else v
        return Enum(ite(g, a.tag, b.tag), vs)
    raise Unsupported("join of values of different shape")


def vmap(d, f):
    """Apply f to each leaf payload of a diagram, where f returns a Value; gate the results."""
    if d.c is None:
        return f(d.v)
    r = None
    for i in reversed(range(d.c.n)):
        v = vmap(d.k[i], f)
        r = v if r is None else vite(outcome(d.c, i), v, r)
    return r


def vsub(v, fn):
    """Structural map over the scalar diagrams of a value."""
    if isinstance(v, Dg):
        return fn(v)
    if isinstance(v, Agg):
        return Agg(vsub(x, fn) for x in v.f)
    if isinstance(v, Enum):
        return Enum(fn(v.tag), {k: vsub(x, fn) for k, x in v.vs.items()})
    return v


def dcof(d, c, i):
    """the diagram where condition c has outcome i"""
    memo = {}

    def rec(d):
        if d.c is None or d.c.idx > c.idx:
            return d
        if d.c is c:
            return d.k[i]
        r = memo.get(d.id)
        if r is None:
            r = memo[d.id] = core.node(d.c, [rec(k) for k in d.k])
        return r
    return rec(d)


def vcof(v, c, i):
    return vsub(v, lambda d: dcof(d, c, i))


# ------------------------------------------------------------------ numeric transfer functions
def sp(x):
    return leaf(("sp", x))


NAN, PINF, NINF = sp("nan"), sp("+inf"), sp("-inf")


def is_sp(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "sp"


def psign(p):
    """sign of a polynomial if it is decided by its constants/positive atoms, else None"""
    d = sign_cases(p, leaf(-1), leaf(0), leaf(1))
    if d.c is None:
        return d.v
    if fm.infeasible([(p, "<=")]):
        return 1
    if fm.infeasible([(p, ">=")]):
        return -1
    return None


def chk(*vs):
    for v in vs:
        if not isinstance(v, Poly) and not is_sp(v):
            raise Unsupported("arithmetic on a non-numeric value %r" % (v,))


def n_neg(a):
    def f(x):
        chk(x)
        if is_sp(x):
            return {"nan": NAN, "+inf": NINF, "-inf": PINF}.get(x[1], leaf(("sp", "?")))
        return dp(-x)
    return applyn(f, [a])


def spv(x):
    return x[1] if is_sp(x) else None


def n_add(a, b):
    def f(x, y):
        chk(x, y)
        if is_sp(x) or is_sp(y):
            s = {spv(x), spv(y)} - {None}
            if any(v[0] in "=?" for v in s):
                return leaf(("sp", "?")) if "nan" not in s else NAN
            return NAN if "nan" in s or len(s) == 2 else sp(s.pop())
        return dp(x + y)
    return applyn(f, [a, b])


def n_sub(a, b):
    return n_add(a, n_neg(b))


def _spmul(x, y, div):
    if "nan" in (spv(x), spv(y)):
        return NAN
    sx = {"+inf": 1, "-inf": -1}.get(spv(x)) if is_sp(x) else psign(x)
    sy = {"+inf": 1, "-inf": -1}.get(spv(y)) if is_sp(y) else psign(y)
    if any(is_sp(v) and spv(v)[0] in "=?" for v in (x, y)):
        return leaf(("sp", "?"))
    if div and is_sp(y):
        return NAN if is_sp(x) else dnum(0)
    if sx is None or sy is None:
        return leaf(("sp", "?"))
    if sx * sy == 0:
        return NAN if not div else (PINF if sx > 0 else NINF)
    return PINF if sx * sy > 0 else NINF


def n_mul(a, b):
    def f(x, y):
        chk(x, y)
        if is_sp(x) or is_sp(y):
            return _spmul(x, y, False)
        return dp(x * y)
    return applyn(f, [a, b])


QUOT = [False]


class quotients:
    """With this on, a division is not the exact one of the field of fractions but an opaque, rounded quotient of its two
    operands, as it is on integers and fixed-point numbers: what is computed before it may be rearranged, what comes after
    it may not be moved across it."""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        self.old, QUOT[0] = QUOT[0], self.on

    def __exit__(self, *a):
        QUOT[0] = self.old


def p_quo(x, y):
    if x.is_const() and y.is_const() and y.const() != 0:
        return num(x.const() / y.const())
    if not x.t or y == ONE:
        return x
    if y == -ONE:
        return -x
    if y.t and all(atom_by_id(a).kind == "const" for p in (x, y) for a in p.atoms(deep=True)):
        return x * inverse(y)       # a constant
    if not y.is_const() and y.t:
        k = core.monic(y)[0]
        x, y = x.scale(1 / k), y.scale(1 / k)
    if x.t and core.lead(x) < 0:
        return -pa(atom("fn", "rounded quotient", (-x, y)))
    return pa(atom("fn", "rounded quotient", (x, y)))


def n_div(a, b):
    def f(x, y):
        chk(x, y)
        if is_sp(x) or is_sp(y):
            return _spmul(x, y, True)
        return dp(p_quo(x, y) if QUOT[0] else x * inverse(y))
    return applyn(f, [a, b])


def p_idiv(x, y):
    if x.is_const() and y.is_const() and y.const() != 0:
        a, b = int(x.const()), int(y.const())
        q = abs(a) // abs(b)
        return num(q if (a < 0) == (b < 0) else -q)
    if y == ONE:
        return x
    q = atom("fn", "idiv", (x, y), isint=True)
    if q.info is None and y.is_const() and y.const() > 0:
        r = x - y * pa(q)
        q.info = {"facts": [(y - r, ">"), (y + r, ">")], "split": [[(x, ">="), (r, ">="), (pa(q), ">=")], [(x, "<="), (r, "<="), (pa(q), "<=")]]}
    return pa(q)


def n_idiv(a, b):
    return applyn(lambda x, y: dp(p_idiv(x, y)), [a, b])


def p_rem(x, y, integer):
    if x.is_const() and y.is_const() and y.const() != 0:
        q = Fr(abs(x.const()) // abs(y.const()))
        q = q if (x.const() < 0) == (y.const() < 0) else -q
        return num(x.const() - q * y.const())
    q = atom("fn", "quot", (x, y), isint=True)
    r = x - y * pa(q)
    s = psign(y)
    if q.info is None and s:
        ay = y if s > 0 else -y
        q.info = {"facts": [(ay - r, ">"), (ay + r, ">")], "split": [[(x, ">="), (r, ">=")], [(x, "<="), (r, "<=")]]}
    return r


def n_rem(a, b, integer=False):
    def f(x, y):
        chk(x, y)
        if is_sp(x):
            return NAN
        if is_sp(y):
            return dp(x) if spv(y) != "nan" else NAN
        return dp(p_rem(x, y, integer))
    return applyn(f, [a, b])


def n_cmp(op, a, b):
    """op in lt le gt ge eq ne -> bool diagram"""
    T = {"lt": (1, 0, 0), "le": (1, 1, 0), "gt": (0, 0, 1), "ge": (0, 1, 1), "eq": (0, 1, 0), "ne": (1, 0, 1)}[op]
    B = (FALSE, TRUE)

    def f(x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return sign_cases(x - y, B[T[0]], B[T[1]], B[T[2]])
        if is_sp(x) or is_sp(y):
            if "nan" in (spv(x), spv(y)):
                return B[op == "ne"]
            if any(v is not None and v[0] in "=?" for v in (spv(x), spv(y))):
                raise Unsupported("comparison of an unknown special value")
            v = {"+inf": 1, "-inf": -1}
            d = v.get(spv(x), 0) - v.get(spv(y), 0)
            return B[T[(d > 0) - (d < 0) + 1]]
        if isinstance(x, bool) and isinstance(y, bool):
            d = int(x) - int(y)
            return B[T[(d > 0) - (d < 0) + 1]]
        if type(x) is type(y) and op in ("eq", "ne") and x == y and isinstance(x, (tuple, int)):
            return B[op == "eq"]
        if isinstance(x, int) and isinstance(y, int):
            d = x - y
            return B[T[(d > 0) - (d < 0) + 1]]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "str":
            return B[T[(x > y) - (x < y) + 1]]
        raise Unsupported("comparison of %r and %r" % (x, y))
    return applyn(f, [a, b])


def n_sign3(a):
    """-1 / 0 / 1 as numbers"""
    return applyn(lambda x: sign_cases(x, dnum(-1), dnum(0), dnum(1)), [a])


def n_abs(a):
    def f(x):
        if is_sp(x):
            return leaf(("sp", "?")) if spv(x)[0] in "=?" else PINF if spv(x) != "nan" else NAN
        chk(x)
        return sign_cases(x, dp(-x), dnum(0), dp(x))
    return applyn(f, [a])


FN_NONNEG = {"sqrt", "exp"}


def fn_atom(name, *ps, **kw):
    """function atom on polynomials, with the algebraic identities that hold for the named function"""
    if name == "sqrt":
        x = ps[0]
        if x.is_const() and x.const() >= 0:
            c = x.const()
            n, d = int(c.numerator ** 0.5 + .5), int(c.denominator ** 0.5 + .5)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fr(n, d))
    if name in ("sin", "cos"):
        x = ps[0]
        # sin and cos have period 2*pi: sin(wrap(x)) = sin(x)
        if len(x.t) == 1 and len(x.t[0][0]) == 1:
            (m, c), = x.t
            a = atom_by_id(m[0][0])
            if m[0][1] == 1 and a.name == "wrap" and abs(c) == 1:
                x = a.args[0].scale(c)
        k = core.lead(x) if x.t else 0
        if k < 0:
            return (fn_atom(name, -x).scale(-1)) if name == "sin" else fn_atom(name, -x)
        if not x.t:
            return ZERO if name == "sin" else ONE
        ps = (x,)
    if name == "exp" and not ps[0].t:
        return ONE
    return pa(atom("fn", name, tuple(ps), nonneg=name in FN_NONNEG, **kw))


for _n in ("sqrt", "sin", "cos", "exp"):
    core._rebuilders[_n] = (lambda nm: lambda at, na: fn_atom(nm, *na))(_n)
core._rebuilders["quot"] = lambda at, na: _requot(na)
core._rebuilders["rounded quotient"] = lambda at, na: p_quo(*na)
core._rebuilders["idiv"] = lambda at, na: p_idiv(*na)


def _requot(na):
    r = p_rem(na[0], na[1], False)
    if na[0].is_const() and na[1].is_const() and na[1].const() != 0:
        return num((na[0].const() - r.const()) / na[1].const())
    return pa(atom("fn", "quot", na, isint=True))


# value at +inf and -inf; every function of one operand maps NaN to NaN
AT_INF = {"exp": (PINF, ZERO), "exp2": (PINF, ZERO), "exp10": (PINF, ZERO), "sqrt": (PINF, NAN), "cbrt": (PINF, NINF),
          "ceil": (PINF, NINF), "floor": (PINF, NINF), "log": (PINF, NAN), "log2": (PINF, NAN), "log10": (PINF, NAN),
          "sinh": (PINF, NINF), "cosh": (PINF, PINF), "tanh": (ONE, -ONE), "asinh": (PINF, NINF), "acosh": (PINF, NAN),
          "atanh": (NAN, NAN), "sin": (NAN, NAN), "cos": (NAN, NAN), "tan": (NAN, NAN), "asin": (NAN, NAN), "acos": (NAN, NAN)}


def fn_special(name, xs):
    base = name.split("@")[0]
    if any(spv(x) == "nan" for x in xs) and base != "pow":
        return NAN
    if any(spv(x) not in ("nan", "+inf", "-inf") for x in xs if is_sp(x)):
        return leaf(("sp", "?"))
    if len(xs) == 1 and base in AT_INF:
        v = AT_INF[base][spv(xs[0]) == "-inf"]
        return v if not isinstance(v, Poly) else dp(v)
    return leaf(("sp", "=%s(%s)" % (name, ", ".join(spv(x) if is_sp(x) else str(x) for x in xs))))


def n_fn(name, *ds, **kw):
    def f(*xs):
        if any(is_sp(x) for x in xs):
            return fn_special(name, xs)
        chk(*xs)
        return dp(fn_atom(name, *xs, **kw))
    return applyn(f, list(ds))


def n_powi(x, n, integer=False):
    def f(b, k):
        if is_sp(b):
            if k.is_const() and k.const() > 0:
                if spv(b) == "-inf":
                    return PINF if int(k.const()) % 2 == 0 else NINF
                return leaf(b)
            return leaf(("sp", "?"))
        chk(b, k)
        if integer:
            return sign_cases(k, dp(p_idiv(ONE, spow(b, -k))), dnum(1), dp(spow(b, k)))
        return dp(spow(b, k))
    return applyn(f, [x, n])


# ------------------------------------------------------------------ the analysis
class Frame:
    __slots__ = ("id", "body", "active", "depth", "loc")


class Event:
    __slots__ = ("kind", "g", "loc", "what", "val", "ty", "aux")

    def __init__(self, kind, g, loc, what, val=None, ty=None, aux=None):
        self.kind, self.g, self.loc, self.what, self.val, self.ty, self.aux = kind, g, loc, what, val, ty, aux


CMP = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}


def refs_in(v):
    """cells a value refers to"""
    if isinstance(v, Agg):
        return [c for x in v.f for c in refs_in(x)]
    if isinstance(v, Enum):
        return [c for x in v.vs.values() for c in refs_in(x)]
    if isinstance(v, Dg):
        return [p[1] for p in core.leaves(v) if isinstance(p, tuple) and len(p) == 3 and p[0] == "ref"]
    return []


def step(path, k):
    """one step further along a path; a step into a part of a slice is a step into the slice"""
    if path and isinstance(path[-1], tuple) and path[-1][0] == "sub":
        lo = path[-1][1]
        if isinstance(k, tuple) and k[0] == "sub":
            return path[:-1] + (("sub", lo + k[1], lo + k[2]),)
        if isinstance(k, int):
            return path[:-1] + (lo + k,)
    return path + (k,)


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog, cut=(), convmode="value"):
        import builtins_mn
        watch.mark()
        self.P = prog
        self.cut = set(cut)
        self.convmode = convmode
        self.events = []
        self.nframe = 0
        self.steps = 0
        self.visited = set()      # keys of inlined bodies
        self.external = {}        # resolved external callee path -> number of sites met
        self.assumed = set()
        self.unsummarised = 0
        self.stack = []
        self.levels = []          # known scalar arguments of each activation
        self.rec = None
        self.wrapping_abs = False     # the absolute value of the minimum is itself
        self.memo_feas = {}
        self.bi = builtins_mn
        self.loc = None
        self.max_sym = 3
        self.havoc = False      # forget the final value of variables that a loop updates in a way without a closed form
        self.log_arith = True
        self.nocontract = set()   # numeric trait methods inlined instead of being taken by contract

    # ------------------------------------------------------------ bookkeeping
    def event(self, kind, g, what, val=None, ty=None, aux=None):
        self.events.append(Event(kind, g, self.loc, what, val, ty, aux))

    def unsup(self, what):
        raise Unsupported(what, self.loc)

    def feasible(self, g, extra=()):
        """May guard g hold? (False only if every path of g is refuted)"""
        key = (g.id, tuple(extra))
        r = self.memo_feas.get(key)
        if r is None:
            r = self._feas(g, (), extra)
            self.memo_feas[key] = r
        return r

    def _feas(self, g, pc, extra):
        if g is FALSE:
            return False
        if (pc or extra) and fm.pc_infeasible(pc, extra):
            return False
        if g is TRUE:
            return True
        return any(self._feas(g.k[i], pc + ((g.c, i),), extra) for i in range(g.c.n) if g.k[i] is not FALSE)

    def prune(self, d, g, extra=()):
        """Feasible cells (pc, payload) of diagram d under guard g."""
        def rec(d, g, pc):
            if g is FALSE:
                return
            if pc and fm.pc_infeasible(pc, extra):
                return
            if d.c is None and g is TRUE:
                yield pc, d.v
                return
            if d.c is None:
                top = g.c
            elif g.c is None:
                top = d.c
            else:
                top = d.c if d.c.idx <= g.c.idx else g.c
            for i in range(top.n):
                yield from rec(d.k[i] if d.c is top else d, g.k[i] if g.c is top else g, pc + ((top, i),))
        yield from rec(d, g, ())

    # ------------------------------------------------------------ places
    def fkey(self, F, local):
        return (F.id, local)

    def local_value(self, F, st, l):
        return st.get((F.id, l), UNDEF)

    def get_path(self, v, path):
        for e in path:
            if v is UNDEF:
                return UNDEF
            if isinstance(e, tuple) and e[0] == "sub":      # part of a slice
                if not isinstance(v, Agg):
                    self.unsup("part of an opaque slice")
                v = Agg(v.f[e[1]:e[2]])
            elif isinstance(e, tuple):        # variant field
                if not isinstance(v, Enum):
                    self.unsup("downcast of a non-enum value")
                v = v.vs.get(e[1])
                if v is None:
                    return UNDEF
                v = v.f[e[2]]
            else:
                if isinstance(v, Dg):
                    v = self.explode(v, e)
                    continue
                if not isinstance(v, Agg):
                    self.unsup("field of a non-aggregate value")
                if e >= len(v.f):
                    self.unsup("index out of the modelled aggregate")
                v = v.f[e]
        return v

    def explode(self, v, e):
        self.unsup("field of an opaque value")

    def set_path(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if isinstance(e, tuple) and e[0] == "sub":
            if len(path) > 1 or not isinstance(x, Agg) or not isinstance(v, Agg) or len(x.f) != e[2] - e[1]:
                self.unsup("write through a part of a slice")
            return Agg(v.f[:e[1]] + x.f + v.f[e[2]:])
        if isinstance(e, tuple):
            vs = dict(v.vs) if isinstance(v, Enum) else {}
            tag = v.tag if isinstance(v, Enum) else leaf(e[1])
            old = list(vs[e[1]].f) if e[1] in vs else []
            while len(old) <= e[2]:
                old.append(UNDEF)
            old[e[2]] = self.set_path(old[e[2]], path[1:], x)
            vs[e[1]] = Agg(old)
            return Enum(tag, vs)
        f = list(v.f) if isinstance(v, Agg) else []
        while len(f) <= e:
            f.append(UNDEF)
        f[e] = self.set_path(f[e], path[1:], x)
        return Agg(f)

    def read_ref(self, st, r):
        """Value behind a reference payload."""
        if isinstance(r, tuple) and r[0] == "ref":
            return self.get_path(st.get(r[1], UNDEF), r[2])
        if isinstance(r, tuple) and r[0] in ("str", "bytes"):
            return leaf(r)
        self.unsup("dereference of %r" % (r,))

    def deref(self, st, v):
        if not isinstance(v, Dg):
            self.unsup("dereference of an aggregate")
        return vmap(v, lambda r: self.read_ref(st, r))

    def resolve(self, F, st, place):
        """Place -> diagram of ('ref', cell, path)."""
        cur = leaf(("ref", (F.id, place[0]), ()))
        pend = None
        for e in place[1:]:
            if e == "*":
                v = self.deref(st, cur)
                if v is UNDEF:
                    self.unsup("dereference of an undefined pointer")
                cur = v
            elif e[0] == "f":
                if pend is not None:
                    x = ("v", pend, e[1])
                    pend = None
                else:
                    x = e[1]
                cur = applyn(lambda r: leaf(("ref", r[1], step(r[2], x))), [cur])
            elif e[0] == "d":
                pend = e[1]
            elif e[0] == "i":
                iv = st.get((F.id, e[1]), UNDEF)
                if not isinstance(iv, Dg):
                    self.unsup("index")

                def f(r, i):
                    if not isinstance(i, Poly) or not i.is_const():
                        self.unsup("symbolic array index")
                    return leaf(("ref", r[1], step(r[2], int(i.const()))))
                cur = applyn(f, [cur, iv])
            elif e[0] in ("ci", "sub"):
                whole = self.deref(st, cur)
                if not isinstance(whole, Agg):
                    self.unsup("element of an opaque slice")
                n = len(whole.f)
                if e[0] == "ci":
                    at = n - int(e[1]) if e[2] else int(e[1])
                else:
                    at = ("sub", int(e[1]), n - int(e[2]) if e[3] else int(e[2]))
                cur = applyn(lambda r: leaf(("ref", r[1], step(r[2], at))), [cur])
            else:
                self.unsup("projection %r" % (e,))
        return cur

    def read_place(self, F, st, place):
        if len(place) == 1:
            return st.get((F.id, place[0]), UNDEF)
        # symbolic index reads are merged element by element
        for n, e in enumerate(place[1:]):
            if isinstance(e, list) and e[0] == "i":
                return self.read_indexed(F, st, place)
        return self.deref(st, self.resolve(F, st, place))

    def read_indexed(self, F, st, place):
        n = next(i for i, e in enumerate(place) if isinstance(e, list) and e[0] == "i")
        base = self.read_place(F, st, place[:n])
        idx = st.get((F.id, place[n][1]), UNDEF)
        if not isinstance(base, Agg) or not isinstance(idx, Dg):
            self.unsup("indexing")

        def f(i):
            if not isinstance(i, Poly):
                self.unsup("index value")
            if i.is_const():
                k = int(i.const())
                return base.f[k] if 0 <= k < len(base.f) else UNDEF
            r = None
            for k in reversed(range(len(base.f))):
                r = base.f[k] if r is None else vite(n_cmp("eq", dp(i), dnum(k)), base.f[k], r)
            return r
        v = vmap(idx, f)
        if len(place) > n + 1:
            c = ("tmp", F.id, self.nframe)
            self.nframe += 1
            st2 = dict(st)
            st2[(c, 0)] = v
            G = Frame()
            G.id = c
            v = self.read_place(G, st2, [0] + place[n + 1:])
        return v

    def write_ref(self, st, refd, val, g):
        if refd.c is None:
            r = refd.v
            if r[0] != "ref":
                self.unsup("write through %r" % (r,))
            if not r[2]:
                st[r[1]] = val
            else:
                st[r[1]] = self.set_path(st.get(r[1], UNDEF), r[2], val)
            return
        for gg, r in core.leaf_guards(refd):
            old = self.read_ref(st, r)
            self.write_ref(st, leaf(r), vite(gg, val, old), g)

    def write_place(self, F, st, place, val, g):
        if len(place) == 1:
            st[(F.id, place[0])] = val
        else:
            self.write_ref(st, self.resolve(F, st, place), val, g)

    # ------------------------------------------------------------ types of operands
    def place_ty(self, F, place):
        t = F.body.locals[place[0]]
        for e in place[1:]:
            ty = self.P.ty(t)
            if e == "*":
                t = ty[2] if ty[0] in ("ref", "ptr") else t
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = ty[1]
            elif e[0] == "sub" and ty[0] != "slice":
                self.unsup("part of an array by value")
        return t

    def op_ty(self, F, o):
        if o[0] == "untyped":
            self.unsup("argument of an unknown type")
        return o[1]["t"] if o[0] == "k" else self.place_ty(F, o[1])

    # ------------------------------------------------------------ operands and rvalues
    def const(self, F, k, st):
        t = k["t"]
        v = k["v"]
        return self.const_value(F, t, v, k, st)

    def new_cell(self, st, val):
        self.nframe += 1
        c = ("c", self.nframe)
        st[c] = val
        return c

    def const_value(self, F, t, v, k, st):
        kind = v[0]
        ty = self.P.ty(t)
        if kind == "int":
            fx = self.P.fixed(t)
            if fx:
                return dnum(Fr(int(v[1]), 2 ** fx[2]))
            return dnum(int(v[1]))
        if kind == "float":
            bits = int(v[2])
            f = struct.unpack("<f", struct.pack("<I", bits))[0] if ty[1] == "f32" else \
                struct.unpack("<d", struct.pack("<Q", bits))[0] if ty[1] == "f64" else None
            if f is None:
                self.unsup("float constant of type %s" % ty[1])
            if f != f:
                return NAN
            if f in (float("inf"), float("-inf")):
                return PINF if f > 0 else NINF
            return dnum(Fr(f))
        if kind == "bool":
            return TRUE if v[1] else FALSE
        if kind == "char":
            return leaf(("char", chr(int(v[1])) if not isinstance(v[1], str) else v[1]))
        if kind == "str":
            return leaf(("str", v[1]))
        if kind == "bytes":
            return leaf(("bytes", tuple(v[1])))
        if kind in ("zst", "fn"):
            if ty[0] == "fndef":
                return leaf(("fn", t))
            if ty[0] == "closure":
                return Agg(())
            if ty[0] == "adt" and ty[3] == "enum":
                vs = ty[4]
                return Enum(leaf(0), {0: Agg(())})
            if ty[0] == "adt" and ty[3] == "struct":
                return Agg([self.const_value(F, ft, ["zst"], k, st) for _n, ft in ty[4][0][2]])
            return UNIT
        if kind == "bits":
            fx = self.P.fixed(t)
            if fx:
                b = int(v[1])
                if fx[0] and b >= 2 ** (fx[1] - 1):
                    b -= 2 ** fx[1]
                return dnum(Fr(b, 2 ** fx[2]))
            if len(v) > 3 and v[3]:
                return self.const_value(F, t, v[3], k, st)
            self.unsup("constant of type %s" % self.P.tname(t))
        if kind == "agg":
            fs = Agg([self.const_value(F, ft, fv, k, st) for ft, fv in v[2]])
            if ty[0] == "adt" and ty[3] == "enum":
                return Enum(leaf(v[1]), {v[1]: fs})
            fx = self.P.fixed(t)
            if fx:
                x = fs.f[0]
                return applyn(lambda p: dp(p.scale(Fr(1, 2 ** fx[2]))), [x])
            return fs
        if kind == "static" and not v[2]:
            kind, v = "refto", ["refto", v[3]]
        if kind == "refto":
            inner = ty[2] if ty[0] in ("ref", "ptr") else t
            return leaf(("ref", self.new_cell(st, self.const_value(F, inner, v[1], k, st)), ()))
        if kind == "promoted":
            b = self.P.promoted(v[2] if v[2] is not None else F.body.key, v[1])
            val, st2 = self.call_body(b, [], st, TRUE)
            # cells created while evaluating the promoted body stay alive
            for c, x in st2.items():
                if c not in st:
                    st[c] = x
            inner = ty[2] if ty[0] in ("ref", "ptr") else t
            if isinstance(val, Dg) and val.c is None and isinstance(val.v, tuple) and val.v[0] == "ref" and \
                    self.P.ty(inner)[0] != "ref":
                return val
            return leaf(("ref", self.new_cell(st, val), ()))
        r = self.bi.const_hook(self, F, t, v, k)
        if r is not None:
            return r
        self.unsup("constant %s of type %s (%s)" % (kind, self.P.tname(t), k.get("path")))

    def operand(self, F, st, o):
        if o[0] in ("c", "m"):
            return self.read_place(F, st, o[1])
        if o[0] == "k":
            return self.const(F, o[1], st)
        return FALSE if o[0] == "rt" else self.unsup("operand %r" % (o[0],))

    def binop(self, op, a, b, ta, g):
        ty = self.P.ty(ta)
        isint = ty[0] == "int"
        isbool = ty[0] == "bool"
        ov = op.endswith("WithOverflow")
        if ov:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op in CMP:
            if isbool and op in ("Eq", "Ne"):
                r = ite(a, b, NOT(b))
                return r if op == "Eq" else NOT(r)
            return n_cmp(CMP[op], a, b)
        if op == "Cmp":
            t = n_cmp("lt", a, b)
            e = n_cmp("eq", a, b)
            return Enum(ite(t, leaf(0), ite(e, leaf(1), leaf(2))), {0: UNIT, 1: UNIT, 2: UNIT})
        if isbool:
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op == "BitXor":
                return ite(a, NOT(b), b)
            self.unsup("bool op %s" % op)
        if op == "Add":
            r = n_add(a, b)
        elif op == "Sub":
            r = n_sub(a, b)
        elif op == "Mul":
            r = n_mul(a, b)
        elif op == "Div":
            if not isint:
                self.event("div", g, "division", b, ta)
            r = n_idiv(a, b) if isint else n_div(a, b)
        elif op == "Rem":
            if not isint:
                self.event("div", g, "remainder", b, ta)
            r = n_rem(a, b, isint)
        elif op in ("Shr", "Shl"):
            def f(x, k):
                if not k.is_const():
                    return dp(pa(atom("fn", op, (x, k), isint=True)))
                m = num(2 ** int(k.const()))
                if op == "Shl":
                    return dp(x * m)
                if x.is_const():
                    return dnum(int(x.const()) >> int(k.const()))
                return dp(p_idiv(x, m)) if self.P.unsigned(ta) else dp(pa(atom("fn", "shr", (x, m), isint=True)))
            r = applyn(f, [a, b])
        elif op in ("BitAnd", "BitOr", "BitXor"):
            def f(x, y):
                if x.is_const() and y.is_const():
                    i, j = int(x.const()), int(y.const())
                    return dnum({"BitAnd": i & j, "BitOr": i | j, "BitXor": i ^ j}[op])
                if op == "BitAnd" and y == ONE and self.P.unsigned(ta):
                    return dp(p_rem(x, num(2), True))
                return dp(pa(atom("fn", op, (x, y), isint=True, nonneg=self.P.unsigned(ta))))
            r = applyn(f, [a, b])
        else:
            self.unsup("operator %s" % op)
        if self.convmode == "round":
            r = self.bi.quant(self, r, ta, op, g)
        if isint and op in ("Sub",) and self.P.unsigned(ta):
            self.event("usub", g, "unsigned subtraction below zero", r)
        if isint:
            self.event("iarith", g, op, r, ta, b)
        elif self.log_arith:
            self.event("arith", g, op, r, ta, b)
        if ov:
            return Agg([r, FALSE])
        return r

    def signed(self, n, t):
        """a bit pattern as a value of integer type t"""
        ty = self.P.ty(t)
        if ty[0] == "int" and ty[1][0] == "i":
            b = self.bi.bits_of(ty[1])
            n %= 2 ** b
            if n >= 2 ** (b - 1):
                n -= 2 ** b
        return n

    def rvalue(self, F, st, rv, g, dty=None):
        k = rv[0]
        if k == "use":
            return self.operand(F, st, rv[1])
        if k in ("ref", "reborrow"):
            return self.resolve(F, st, rv[2])
        if k == "addr":
            return self.resolve(F, st, rv[1] if not isinstance(rv[1], bool) else rv[2])
        if k == "bin":
            ta = self.op_ty(F, rv[2])
            return self.binop(rv[1], self.operand(F, st, rv[2]), self.operand(F, st, rv[3]), ta, g)
        if k == "un":
            a = self.operand(F, st, rv[2])
            ta = self.op_ty(F, rv[2])
            if rv[1] == "Not":
                if self.P.ty(ta)[0] == "bool":
                    return NOT(a)
                return applyn(lambda x: dnum(~int(x.const())) if x.is_const() and not self.P.unsigned(ta) else dp(-x - ONE) if not self.P.unsigned(ta) else self.unsup("bitwise not"), [a])
            if rv[1] == "Neg":
                r = n_neg(a)
                if self.P.ty(ta)[0] == "int":
                    self.event("ineg", g, "negation of the minimum", a, ta)
                elif self.log_arith:
                    self.event("arith", g, "Neg", r, ta)
                return r
            if rv[1] == "PtrMetadata":
                v = self.deref(st, a)
                if isinstance(v, Agg):
                    return dnum(len(v.f))
            self.unsup("unary %s" % rv[1])
        if k == "cast":
            return self.cast(F, st, rv, g)
        if k == "agg":
            ops = [self.operand(F, st, o) for o in rv[2]]
            kind = rv[1]
            if kind[0] in ("tuple", "array", "closure"):
                return Agg(ops)
            if kind[0] == "adt":
                ty = self.P.ty(kind[1])
                if ty[3] == "enum":
                    return Enum(leaf(kind[2]), {kind[2]: Agg(ops)})
                if ty[3] == "struct":
                    return Agg(ops)
            self.unsup("aggregate %r" % (kind[0],))
        if k == "repeat":
            n = rv[2]
            n = int(n) if not isinstance(n, dict) else None
            if n is None or n > 4096:
                self.unsup("array repeat")
            v = self.operand(F, st, rv[1])
            return Agg([v] * n)
        if k == "discr":
            v = self.read_place(F, st, rv[1])
            if v is UNDEF:
                return UNDEF
            if not isinstance(v, Enum):
                self.unsup("discriminant of a non-enum value")
            ty = self.P.ty(self.place_ty(F, rv[1]))
            ds = [int(x[1]) for x in ty[4]]
            if dty is not None:
                ds = [self.signed(x, dty) for x in ds]
            return applyn(lambda i: dnum(ds[i]), [v.tag])
        if k == "len":
            v = self.read_place(F, st, rv[1])
            if isinstance(v, Agg):
                return dnum(len(v.f))
        self.unsup("rvalue %s" % k)

    def cast(self, F, st, rv, g):
        kind, o, t = rv[1], rv[2], rv[3]
        a = self.operand(F, st, o)
        src = self.op_ty(F, o)
        if kind in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
            st_, dt = self.P.ty(src), self.P.ty(t)
            if st_[0] == "bool":
                return ite(a, dnum(1), dnum(0))
            if st_[0] == "adt":
                self.unsup("cast of an enum")
            return self.bi.conv(self, a, src, t, g, "as")
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Unsize"):
            if "ClosureFn" in kind:
                return leaf(("fn", src))
            return a
        if kind == "Transmute" and isinstance(a, Dg):
            # an integer seen as NonZero, as Option<NonZero>, and back (NonZero is represented by the integer itself)
            num_ = lambda i: self.P.ty(i)[0] == "int" or (self.P.ty(i)[0] == "adt" and self.P.ty(i)[1].endswith("::NonZero"))
            if num_(src) and num_(t):
                return a
            if num_(src) and self.P.ty(t)[0] == "adt" and self.P.ty(t)[1] == "core::option::Option":
                return self.bi.option(n_cmp("ne", a, dnum(0)), a)
        self.unsup("cast %s" % kind)

    # ------------------------------------------------------------ control flow
    def merge(self, res, k, g, st):
        if k not in res:
            res[k] = (g, st)
            return
        g0, s0 = res[k]
        out = {}
        for c in s0.keys() | st.keys():
            a, b = s0.get(c, UNDEF), st.get(c, UNDEF)
            if a is b:
                out[c] = a
            else:
                try:
                    out[c] = vite(g0, a, b)
                except Unsupported:
                    out[c] = UNDEF
        res[k] = (OR(g0, g), out)

    def run(self, F, blk, st, g, stops, first=False):
        res = {}
        B = F.body
        while True:
            if blk in stops and not first:
                self.merge(res, blk, g, st)
                return res
            if blk in B.loops and blk not in F.active:
                outs = self.loop(F, blk, st, g, stops)
                if "ret" in outs:
                    self.merge(res, "ret", *outs.pop("ret"))
                nxt = self.join(F, outs, stops, res)
                if nxt is None:
                    return res
                blk, g, st = nxt
                first = False
                continue
            first = False
            b = B.blocks[blk]
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                self.unsup("analysis budget exhausted")
            for s in b["s"]:
                if s[0] == "=":
                    self.loc = s[3]
                    v = self.rvalue(F, st, s[2], g, self.place_ty(F, s[1]) if s[2][0] == "discr" else None)
                    self.write_place(F, st, s[1], v, g)
                elif s[0] == "sd":
                    old = self.read_place(F, st, s[1])
                    vs = dict(old.vs) if isinstance(old, Enum) else {}
                    vs.setdefault(s[2], Agg(()))
                    self.write_place(F, st, s[1], Enum(leaf(s[2]), vs), g)
                elif s[0] == "intr":
                    pass
            t = b["t"]
            self.loc = b["l"]
            k = t[0]
            if k == "goto":
                blk = t[1]
            elif k == "ret":
                self.merge(res, "ret", g, st)
                return res
            elif k in ("unreachable",):
                return res
            elif k in ("resume", "abort"):
                return res
            elif k == "drop":
                if len(t) > 4 and t[4]:
                    self.event("drop", g, "destructor of %s" % self.P.tname(t[3]))
                blk = t[2]
            elif k == "assert":
                c = self.operand(F, st, t[1])
                exp = t[2]
                msg = str(t[3])
                if msg.startswith("Bounds"):
                    bad = NOT(c) if exp else c
                    gb = AND(g, bad)
                    if gb is not FALSE and self.feasible(gb):
                        self.event("panic", gb, "index out of bounds")
                        g = AND(g, c if exp else NOT(c))
                blk = t[4]
            elif k == "switch":
                v = self.operand(F, st, t[1])
                arms = {}
                rest = g
                if v is UNDEF:
                    self.unsup("branch on an undefined value")
                for val, tgt in t[3]:
                    val = self.signed(int(val), t[2])

                    def f(x):
                        if isinstance(x, bool):
                            return TRUE if int(x) == val else FALSE
                        if isinstance(x, Poly):
                            return n_cmp("eq", dp(x), dnum(val))
                        if isinstance(x, int):
                            return TRUE if x == val else FALSE
                        if isinstance(x, tuple) and x[0] == "char":
                            return TRUE if ord(str(x[1])) == val else FALSE
                        self.unsup("branch on %r" % (x,))
                    cv = applyn(f, [v])
                    ga = AND(rest, cv)
                    rest = AND(rest, NOT(cv))
                    if ga is not FALSE:
                        arms[tgt] = OR(arms[tgt], ga) if tgt in arms else ga
                if rest is not FALSE:
                    arms[t[4]] = OR(arms[t[4]], rest) if t[4] in arms else rest
                arms = {x: ga for x, ga in arms.items() if B.blocks[x]["t"][0] != "unreachable" or B.blocks[x]["s"]}
                if len(arms) > 1:
                    arms = {x: ga for x, ga in arms.items() if self.feasible(ga)}
                if not arms:
                    return res
                if len(arms) == 1:
                    (blk, g), = arms.items()
                    continue
                outs = {x: (ga, dict(st)) for x, ga in arms.items()}
                nxt = self.join(F, outs, stops, res, B.pdom.get(blk))
                if nxt is None:
                    return res
                blk, g, st = nxt
            elif k in ("call", "tailcall"):
                tgt = t[4] if k == "call" else None
                args = [self.operand(F, st, o) for o in t[2]]
                r = self.call(F, t[1], args, t, st, g)
                if r is None:      # diverges
                    return res
                val, st, g = r
                if g is FALSE:
                    return res
                if tgt is None:
                    return res
                self.write_place(F, st, t[3], val, g)
                blk = tgt
            else:
                self.unsup("terminator %s" % k)

    def join(self, F, outs, stops, res, P=None):
        """Run every out-edge to the common post-dominator; returns the next (blk, g, st) or None."""
        if not outs:
            return None
        if len(outs) == 1:
            (blk, (g, st)), = outs.items()
            return blk, g, st
        if P is None:
            P = self.common_pdom(F, list(outs))
        acc = {}
        st2 = stops | ({P} if P is not None else set())
        for blk, (g, st) in outs.items():
            for k, (gg, ss) in self.run(F, blk, st, g, st2).items():
                self.merge(acc, k, gg, ss)
        nxt = None
        for k, (gg, ss) in acc.items():
            if k == P and P not in stops:
                nxt = (P, gg, ss)
            else:
                self.merge(res, k, gg, ss)
        return nxt

    def common_pdom(self, F, bs):
        chains = []
        for b in bs:
            ch = [b]
            while True:
                n = F.body.pdom.get(ch[-1])
                if n is None or n in ch:
                    break
                ch.append(n)
            chains.append(ch)
        for x in chains[0]:
            if all(x in c for c in chains[1:]):
                return x
        return None

    # ------------------------------------------------------------ loops
    def loop(self, F, h, st, g, stops):
        L = F.body.loops[h]
        exits = set()
        for b in L:
            for s in F.body.succ[b]:
                if s not in L and s in F.body.live:
                    exits.add(s)
        F.active.add(h)
        try:
            return self.turns(F, h, exits, st, g, 0)
        finally:
            F.active.discard(h)

    def turns(self, F, h, exits, st, g, depth):
        """the loop turn by turn; once its exit depends on data, a summary of all turns"""
        outs = {}
        snap = (dict(st), g, len(self.events))
        cur = (dict(st), g)
        sym = 0
        tried = None
        for n in range(6000):
            r = self.run(F, h, dict(cur[0]), cur[1], {h} | exits, first=True)
            for k, (gg, ss) in r.items():
                if k != h:
                    self.merge(outs, k, gg, ss)
            if h not in r or not self.feasible(r[h][0]):
                return outs
            g2, st2 = r[h]
            if g2 is not cur[1]:
                sym += 1
            cur = (st2, g2)
            if sym > self.max_sym and tried is None:
                evs = self.events[snap[2]:]
                del self.events[snap[2]:]
                try:
                    return self.summarise(F, h, exits, snap[0], snap[1], depth)
                except Unsupported as e:
                    tried = e
                    del self.events[snap[2]:]
                    self.events.extend(evs)
            if sym > (self.max_sym if self.havoc else 70):
                break
        if tried is not None:
            raise tried
        self.event("unbounded", cur[1], "the loop does not reach an exit")
        return outs

    def scalar_positions(self, a, b, path=()):
        """Positions where values a and b differ; None if the shapes differ."""
        if a is b:
            return []
        if isinstance(a, Dg) and isinstance(b, Dg):
            return [path]
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            out = []
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                r = self.scalar_positions(x, y, path + (i,))
                if r is None:
                    return None
                out += r
            return out
        return None

    def summarise(self, F, h, exits, st, g, depth=0):
        n = len(self.events)
        try:
            return self.summarise1(F, h, exits, st, g, False)
        except Unsupported:
            del self.events[n:]
        try:
            # gated loop-invariant bounds are abstracted by single symbols first
            return self.summarise1(F, h, exits, st, g, True)
        except Unsupported as e:
            del self.events[n:]
            # one summary for each outcome of a condition that the entry state depends on
            c = self.entry_cond(F, h, st, g) if depth < 6 else None
            if c is None:
                raise e
        outs = {}
        for i in range(c.n):
            gi = AND(g, outcome(c, i))
            if gi is FALSE or not self.feasible(gi):
                continue
            si = {k: vcof(v, c, i) for k, v in st.items()}
            part = self.turns(F, h, exits, si, gi, depth + 1)
            for k, (gg, ss) in part.items():
                self.merge(outs, k, gg, ss)
        return outs

    def entry_cond(self, F, h, st, g):
        """a condition that decides a gated number the loop works on, counters first"""
        live = mir.live_in(F.body)[h]
        best = [None, None]

        def whole(v):
            return all(isinstance(x, Poly) and all(co.denominator == 1 for _m, co in x.t) and
                       all(atom_by_id(y).isint for y in x.atoms()) for _pc, x in self.prune(v, g))

        def walk(v):
            if isinstance(v, Agg):
                for x in v.f:
                    walk(x)
            elif isinstance(v, Enum):
                walk(v.tag)
                for x in v.vs.values():
                    walk(x)
            elif isinstance(v, Dg) and v.c is not None:
                i = 0 if whole(v) else 1
                for pc, _x in self.prune(v, g):
                    for c, _o in pc:
                        if best[i] is None or c.idx < best[i].idx:
                            if sum(1 for o in range(c.n) if self.feasible(AND(g, outcome(c, o)))) > 1:
                                best[i] = c
        for k, v in st.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] == F.id and k[1] in live:
                walk(v)
        return best[0] or best[1]

    def gated_invariants(self, F, st, live, mod):
        out = []

        def walk(c, v, path):
            if isinstance(v, Agg):
                for i, x in enumerate(v.f):
                    walk(c, x, path + (i,))
            elif isinstance(v, Dg) and v.c is not None and (c, path) not in mod:
                if all(isinstance(x, Poly) and all(co.denominator == 1 for _m, co in x.t) and
                       all(atom_by_id(y).isint for y in x.atoms()) for x in core.leaves(v)):
                    out.append((c, path))
        for c, v in st.items():
            if isinstance(c, tuple) and len(c) == 2 and c[0] == F.id and c[1] not in live:
                continue
            walk(c, v, ())
        return out

    def summarise1(self, F, h, exits, st, g, general):
        live = mir.live_in(F.body)[h]
        mod = {}          # (cell, path) -> atom
        inits = {}
        if general:
            for c, p in self.gated_invariants(F, st, live, mod):
                mod[(c, p)] = fresh("inv", isint=True)
                inits[(c, p)] = self.get_path(st[c], p)
            if not mod:
                self.unsup("loop summary: exit condition")
        for _round in range(12):
            sh = dict(st)
            for (c, p), a in mod.items():
                sh[c] = self.set_path(sh[c], p, dp(pa(a)))
            ne = len(self.events)
            r = self.run(F, h, dict(sh), g, {h} | exits, first=True)
            if h not in r:
                self.unsup("loop summary: no back edge")
            g2, s2 = r[h]
            new = []
            for c, v in sh.items():
                if isinstance(c, tuple) and c[0] == F.id and c[1] not in live:
                    continue
                v2 = s2.get(c, UNDEF)
                if v is v2:
                    continue
                ps = self.scalar_positions(v, v2)
                if ps is None:
                    self.unsup("loop summary: %s changes shape" % (c,))
                for p in ps:
                    if (c, p) not in mod:
                        new.append((c, p))
            if not new:
                break
            del self.events[ne:]
            for c, p in new:
                init = self.get_path(st[c], p)
                isint = True
                for v in core.leaves(init):
                    if not isinstance(v, Poly):
                        self.unsup("loop summary: a non-numeric value changes in the loop")
                    if not all(co.denominator == 1 for _m, co in v.t) or \
                            not all(atom_by_id(x).isint for x in v.atoms()):
                        isint = False
                if c[0] == F.id and not p:
                    isint = self.P.ty(F.body.locals[c[1]])[0] == "int"
                mod[(c, p)] = fresh("h", isint=isint)
                inits[(c, p)] = init
        else:
            self.unsup("loop summary: no fixed point of modified variables")
        ids = {a.id: k for k, a in mod.items()}

        const_ids = {a.id for k, a in mod.items() if self.get_path(s2.get(k[0], UNDEF), k[1]) is dp(pa(a))}

        def has_mod(p):
            return any(x in ids and x not in const_ids for x in p.atoms(deep=True))
        # continue condition
        g2 = self.restrict_cond(g2, g)
        mconds = {}

        def walk(d):
            if d.c is None or d.id in mconds:
                return
            mconds[d.id] = d.c
            for k in d.k:
                walk(k)
        walk(g2)
        M = {c.idx: c for c in mconds.values() if c.kind == "sign" and has_mod(c.key)}
        if len(M) != 1:
            self.unsup("loop summary: %d loop-varying exit conditions" % len(M))
        cs = next(iter(M.values()))
        S = [i for i in range(3) if AND(g2, outcome(cs, i)) is not FALSE]
        gs = FALSE
        for i in S:
            gs = OR(gs, outcome(cs, i))
        rest = FALSE if AND(g, gs) is AND(g2, g) else AND(AND(g, gs), NOT(g2))
        if rest is not FALSE and self.feasible(rest):
            self.unsup("loop summary: exit condition depends on more than one variable")
        # recurrences, per region of the exit condition
        nxt = {k: self.get_path(s2[k[0]], k[1]) for k in mod}

        def recs(region):
            gr = FALSE
            for i in region:
                gr = OR(gr, outcome(cs, i))
            gr = AND(g2, gr)
            out = {}
            for k, a in mod.items():
                vals = {v for _pc, v in self.prune(nxt[k], gr)}
                if len(vals) != 1:
                    out[k] = ("split",)
                    continue
                v = vals.pop()
                if not isinstance(v, Poly):
                    out[k] = ("other",)
                    continue
                d = v - pa(a)
                if not has_mod(d):
                    out[k] = ("add", d)
                    continue
                f = None
                if len(v.t) == 1:
                    m = dict(v.t[0][0])
                    if m.get(a.id) == 1:
                        del m[a.id]
                        f = Poly(((tuple(sorted(m.items())), v.t[0][1]),))
                        if has_mod(f):
                            f = None
                out[k] = ("mul", f) if f is not None else ("other", v)
            return out
        R = recs(S)
        if any(r[0] == "split" for r in R.values()):
            if 1 in S or len(S) != 2:
                if not self.havoc or any(R[k][0] == "split" and mod[k].id in cs.key.atoms(deep=True) for k in mod):
                    self.unsup("loop summary: branch-dependent update")
                R = {k: ("other",) if r[0] == "split" else r for k, r in R.items()}
                regions = [(S, R)]
            else:
                regions = [([i], recs([i])) for i in S]
        else:
            regions = [(S, R)]
        final_parts = []
        key_init = self.subst_init(cs.key, mod, inits)
        for region, R in regions:
            kn = psubst(cs.key, {mod[k].id: self.step(mod[k], R[k]) for k in mod if R[k][0] in ("add", "mul")})
            if any(R[k][0] in ("other", "split") and mod[k].id in cs.key.atoms(deep=True) for k in mod):
                self.unsup("loop summary: exit condition on an irregular variable")
            delta = kn - cs.key
            if not has_mod(delta):
                part = self.counter_region(F, h, g, cs, S, region, delta, R, mod, inits, key_init, len(regions) > 1)
            else:
                if len(regions) > 1:
                    self.unsup("loop summary: geometric loop with branch-dependent update")
                part = self.geometric_region(F, h, g, cs, S, R, mod, inits, key_init)
            final_parts.append((region, part))
        # final values
        fin = dict(st)
        for k in mod:
            v = None
            for region, part in final_parts:
                if v is None:
                    v = part[k]
                else:
                    gr = FALSE
                    for i in region:
                        gr = OR(gr, applyn(lambda p, i=i: sign_cases(p, *[TRUE if j == i else FALSE for j in range(3)]), [key_init]))
                    v = ite(gr, part[k], v)
            fin[k[0]] = self.set_path(fin[k[0]], k[1], v)
        r = self.run(F, h, fin, g, {h} | exits, first=True)
        if h in r:
            if self.feasible(r[h][0]):
                self.unsup("loop summary: exit not established")
            del r[h]
        self.unsummarised += 0
        return r

    def restrict_cond(self, g2, g):
        return g2

    def step(self, a, rec):
        return pa(a) + rec[1] if rec[0] == "add" else pa(a) * rec[1]

    def subst_init(self, p, mod, inits):
        """p with the loop variables replaced by their initial (diagram) values"""
        ks = [k for k in mod if mod[k].id in p.atoms(deep=True)]

        def f(*vs):
            return dp(psubst(p, {mod[k].id: v for k, v in zip(ks, vs)}))
        return applyn(f, [inits[k] for k in ks]) if ks else dp(p)

    def advance(self, k, rec, mod, inits, K, loc):
        """value of position k after K iterations (K: diagram of Poly)"""
        if rec[0] == "add":
            return applyn(lambda v, n, d: dp(v + d * n), [inits[k], K, self.subst_init(rec[1], mod, inits)])
        if rec[0] == "mul":
            return applyn(lambda v, n, d: dp(v * spow(d, n)), [inits[k], K, self.subst_init(rec[1], mod, inits)])
        a = fresh("loopval", isint=mod[k].isint)
        return applyn(lambda v, n: leaf(v) if not n.t else dp(pa(a)), [inits[k], K])

    def counter_region(self, F, h, g, cs, S, region, delta, R, mod, inits, key0, split):
        if not delta.is_const() or abs(delta.const()) != 1:
            if delta.is_const() and delta.const() == 0:
                self.event("unbounded", g, "the loop condition never changes")
                self.unsup("loop summary: loop condition does not change")
            if delta.is_const() and not all(atom_by_id(x).isint for x in cs.key.atoms()):
                self.event("unbounded", g, "the number of iterations is the ratio of two runtime values")
                self.unsup("loop summary: number of iterations bounded only by the magnitude of a value")
            self.unsup("loop summary: step %s" % delta)
        for x in cs.key.atoms():
            if not atom_by_id(x).isint:
                self.event("unbounded", g, "the number of iterations grows with the magnitude of a real value")
                self.unsup("loop summary: number of iterations bounded only by the magnitude of a value")
        d = int(delta.const())
        toward = 2 if d < 0 else 0        # the outcome from which the key moves towards zero
        away = 2 - toward

        def kf(e):
            ae = e if d < 0 else -e
            if split:
                return sign_cases(ae, dnum(0), dnum(0), dp(ae))
            if set(S) == {toward}:
                return sign_cases(ae, dnum(0), dnum(0), dp(ae))
            if set(S) == {toward, 1}:
                return sign_cases(ae + ONE, dnum(0), dnum(0), dp(ae + ONE))
            return sign_cases(ae, leaf("inf"), dnum(0), dp(ae))
        if split and region != [toward]:
            self.event("unbounded", g, "the counter moves away from zero")
            self.unsup("loop summary: counter moves away from its bound")
        if not split and (set(S) not in ({toward}, {toward, 1}, {0, 2})):
            self.event("unbounded", g, "the counter moves away from its bound")
            self.unsup("loop summary: counter moves away from its bound")
        K = applyn(kf, [key0])
        inf = applyn(lambda v: TRUE if v == "inf" else FALSE, [K])
        gi = AND(g, inf)
        if gi is not FALSE and self.feasible(gi):
            self.event("unbounded", gi, "the counter starts beyond its bound")
            self.unsup("loop summary: counter starts beyond its bound")
        K = applyn(lambda v: dnum(0) if v == "inf" else leaf(v), [K])
        fin = {k: self.advance(k, R[k], mod, inits, K, None) for k in mod}
        if not split:
            # a counter in the middle of the loop lies between its first and its last value
            for k, a in mod.items():
                if R[k][0] == "add" and R[k][1].is_const():
                    up = R[k][1].const() >= 0
                    lo, hi = (inits[k], fin[k]) if up else (fin[k], inits[k])
                    lo, hi = self.extreme(lo, g, 1), self.extreme(hi, g, -1)
                    facts = ([(pa(a) - lo, ">=")] if lo is not None else []) + ([(pa(a) - hi, "<=")] if hi is not None else [])
                    if facts:
                        a.info = dict(a.info or {}, facts=facts)
                        self.memo_feas.clear()
                        fm._memo.clear()
        return fin

    def extreme(self, d, g, sgn):
        """the smallest (sgn 1) or largest (sgn -1) of the values of a diagram, if one of them is that everywhere"""
        cs = [(pc, v) for pc, v in self.prune(d, g)]
        if not cs or not all(isinstance(v, Poly) for _pc, v in cs):
            return None
        for c in {v for _pc, v in cs}:
            if all(v == c or not self._feas(g, pc, [(v - c if sgn > 0 else c - v, "<")]) for pc, v in cs):
                return c
        return None

    def geometric_region(self, F, h, g, cs, S, R, mod, inits, key0):
        ks = [k for k in mod if mod[k].id in cs.key.atoms(deep=True)]
        if len(ks) != 1 or R[ks[0]][0] != "mul" or not R[ks[0]][1].is_const():
            self.unsup("loop summary: unrecognised exit condition")
        k0 = ks[0]
        a = mod[k0]
        f = R[k0][1].const()
        if f <= 0 or f == 1:
            self.unsup("loop summary: ratio %s" % f)
        # key = c1*a + c0 with constants
        c1 = None
        c0 = ZERO
        for m, c in cs.key.t:
            if any(x == a.id for x, _e in m):
                if m != ((a.id, 1),) or c1 is not None:
                    self.unsup("loop summary: exit condition not linear")
                c1 = c
            else:
                c0 = c0 + Poly(((m, c),))
        thr = c0.scale(-1 / c1)           # exit threshold on a
        S2 = set(S) if c1 > 0 else {2 - i for i in S}
        below = S2 in ({0}, {0, 1})
        if not below and S2 not in ({2}, {2, 1}):
            self.unsup("loop summary: exit condition")
        if psign(thr) != 1:
            self.unsup("loop summary: threshold not positive")
        incl = 1 in S2
        cont = ("<=" if incl else "<") if below else (">=" if incl else ">")
        stop = (">" if incl else ">=") if below else ("<" if incl else "<=")
        loc = self.loc
        res = {k: [] for k in mod}
        others = [k for k in mod if k != k0]
        memo = {}

        def entry(v):
            """(X, K) for an initial value v that enters the loop"""
            if v in memo:
                return memo[v]
            X = fresh("norm")
            K = fresh("K", isint=True)
            K.info = {"lo": 1}
            K.nonneg = True
            x = pa(X)
            facts = [(x - thr, stop), (x.scale(1 / f) - thr, cont)]
            X.info = {"facts": facts, "geo": (v, f, K)}
            if not fm.infeasible(facts + [(x, "<=")]):
                pass
            else:
                X.nonneg = True
            memo[v] = (pa(X), pa(K))
            return memo[v]

        # termination
        for pc, v in self.prune(inits[k0], g):
            ext = [(v - thr, cont)]
            if fm.pc_infeasible(pc, ext):
                continue
            if below and f > 1:
                ok = fm.pc_infeasible(pc, ext + [(v, "<=")])
                why = "the value grows geometrically only if it starts above zero, which no condition establishes"
            elif not below and f < 1:
                ok = self.bounded_above(pc, v, ext)
                why = "the value shrinks to the bound only if it starts finite, which no condition establishes"
            else:
                ok = False
                why = "the value moves away from the bound"
            if not ok:
                self.event("unbounded", g, why)
                self.unsup("loop summary: " + why)

        def fin(k):
            def one(v0, v):
                # v0: initial value of the exit variable, v: of position k
                entered = sign_cases(v0 - thr, *[TRUE if rel in cont else FALSE for rel in ("<", "=", ">")])
                if entered is FALSE or fm.infeasible([(v0 - thr, cont)]):
                    return leaf(v)
                X, K = entry(v0)
                if k == k0:
                    y = X
                elif R[k][0] == "add":
                    y = v + R[k][1] * K
                elif R[k][0] == "mul":
                    y = v * spow(R[k][1], K)
                else:
                    y = pa(fresh("loopval", isint=mod[k].isint))
                return ite(entered, dp(y), leaf(v))
            return applyn(one, [inits[k0], inits[k]])
        return {k: fin(k) for k in mod}

    def bounded_above(self, pc, v, ext):
        for a in list(core._atom_list):
            if a.name == "MAX":
                if fm.pc_infeasible(pc, ext + [(v - pa(a), ">")]):
                    return True
        hi = None
        for c in (Fr(10) ** 5000,):
            if fm.pc_infeasible(pc, ext + [(v - num(c), ">")]):
                return True
        return False

    # ------------------------------------------------------------ calls
    def counted(self, body, args):
        """a known nonnegative count is smaller than in the activation before"""
        prev = [lv for k, lv in zip(self.stack, self.levels) if k == body.key]
        if not prev:
            return len(self.stack) <= 40 or any(self.stack.count(k) > 3 for k in self.stack)
        for a, b in zip(args, prev[-1]):
            if b is not None and isinstance(a, core.Dg) and a.c is None and isinstance(a.v, Poly) and a.v.is_const() and 0 <= a.v.const() < b:
                return True
        return False

    def call_body(self, body, args, st, g):
        """Inline a body; returns (value, state) — state includes every cell; guard in self.last_g."""
        again = self.stack.count(body.key)
        if again and self.rec and self.rec[0] == body.key:
            # a recursive call of the function whose recursion is being bounded: recorded, its value unknown
            self.rec[1].append((g, list(args), self.loc))
            self.last_g = g
            return self.rec[2](), st
        if again > 3 or len(self.stack) > 40:
            # deeper only while a known count changes with each level
            if again > 400 or len(self.stack) > 800 or not self.counted(body, args):
                self.unsup("recursion")
        F = Frame()
        self.nframe += 1
        F.id = self.nframe
        F.body = body
        F.active = set()
        st = dict(st)
        for i, a in enumerate(args):
            st[(F.id, i + 1)] = a
        self.stack.append(body.key)
        self.levels.append(tuple(a.v.const() if isinstance(a, core.Dg) and a.c is None and isinstance(a.v, Poly) and a.v.is_const() else None for a in args))
        self.visited.add(body.key)
        loc = self.loc
        try:
            r = self.run(F, 0, st, g, frozenset())
        finally:
            self.stack.pop()
            self.levels.pop()
            self.loc = loc
        if "ret" not in r:
            self.last_g = FALSE
            return UNDEF, st
        g2, st2 = r["ret"]
        val = st2.get((F.id, 0), UNDEF)
        if val is UNDEF:
            val = UNIT
        self.last_g = g2
        out = {c: v for c, v in st2.items() if c[0] != F.id}
        # a promoted constant is a reference into its own frame, which stays readable
        todo = [val] if not args else []
        while todo:
            for c in refs_in(todo.pop()):
                if c[0] == F.id and c not in out and c in st2:
                    out[c] = st2[c]
                    todo.append(st2[c])
        return val, out

    def call(self, F, callee, args, t, st, g):
        return self.bi.call(self, F, callee, args, t, st, g)
