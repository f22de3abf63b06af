"""Equality of two gated values, cell by cell."""
from fractions import Fraction as Fr
import core
import fm
from core import Poly, ZERO, psubst, is_zero_frac, atom_by_id, _nonneg_mono, leaf, applyn, TRUE, AND
from interp import Agg, Enum, UNDEF, is_sp


def solve_eqs(eqs):
    """Substitution implied by polynomial equalities (a list of solved atoms)."""
    s = []
    eqs = list(eqs)
    n = 0
    while eqs and n < 40:
        n += 1
        p = eqs.pop(0)
        for a, v in s:
            p = psubst(p, {a: v})
        if not p.t or p.is_const():
            continue
        # sum of non-negative monomials = 0
        if len(p.t) > 1 and all(_nonneg_mono(m) and m for m, _ in p.t) and \
                (all(c > 0 for _m, c in p.t) or all(c < 0 for _m, c in p.t)):
            for m, c in p.t:
                eqs.append(Poly(((m, Fr(1)),)))
            continue
        if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] > 0:
            a = p.t[0][0][0][0]
            s.append((a, ZERO))
            if atom_by_id(a).name == "sqrt":
                eqs.append(atom_by_id(a).args[0])
            continue
        occ = {}
        for m, c in p.t:
            for a, e in m:
                occ[a] = occ.get(a, 0) + 1
        inner = set()
        for a in occ:
            for x in atom_by_id(a).args:
                if isinstance(x, Poly):
                    inner |= x.atoms(deep=True)
        best = None
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1 and occ[m[0][0]] == 1 and m[0][0] not in inner:
                at = atom_by_id(m[0][0])
                rank = 0 if at.kind == "fresh" else (1 if at.kind == "var" else 2)
                if at.name in ("pi",):
                    rank = 9
                if best is None or rank < best[0]:
                    best = (rank, m, c)
        if best:
            _r, m, c = best
            rest = Poly(tuple((mm, cc) for mm, cc in p.t if mm != m))
            s.append((m[0][0], rest.scale(-1 / c)))
    return s


def apply_eqs(p, s):
    for a, v in s:
        p = psubst(p, {a: v})
    return p


def pc_eqs(pc):
    return [c.key for c, i in pc if c.kind == "sign" and i == 1]


def poly_equal(a, b, pc=(), extra=()):
    d = a - b
    if is_zero_frac(d):
        return True
    eqs = pc_eqs(pc) + [p for p, r in extra if r == "="]
    if eqs:
        s = solve_eqs(eqs)
        d = apply_eqs(d, s)
        if is_zero_frac(d):
            return True
    cons = fm.pc_constraints(pc) + list(extra)
    if fm.infeasible(cons + [(d, "<")]) and fm.infeasible(cons + [(d, ">")]):
        return True
    # division by something that is zero in this cell: neither side has a value
    return False


def contradictory(pc, extra=()):
    """Is the cell empty once its equalities are substituted into its other constraints?"""
    s = solve_eqs(pc_eqs(pc) + [p for p, r in extra if r == "="])
    if not s:
        return False
    cons = []
    for p, rel in fm.pc_constraints(pc) + list(extra):
        q = apply_eqs(p, s)
        if q.is_const():
            c = q.const()
            if not {"<": c < 0, "=": c == 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[rel]:
                return True
        else:
            cons.append((q, rel))
    return bool(cons) and fm.infeasible(cons)


def undefined_in(p, pc, extra=()):
    """Does p contain a reciprocal of something that is zero in the cell?"""
    s = solve_eqs(pc_eqs(pc) + [q for q, r in extra if r == "="])
    for a in p.atoms(deep=True):
        at = atom_by_id(a)
        if at.name == "inv":
            q = apply_eqs(at.args[0], s)
            if is_zero_frac(q):
                return True
    for m, _c in p.t:
        for a, e in m:
            if e < 0 and is_zero_frac(apply_eqs(Poly(((((a, 1),), Fr(1)),)), s)):
                return True
    return False


def show_pc(pc):
    if not pc:
        return "always"
    o = []
    for c, i in pc:
        if c.kind == "sign":
            o.append("%s %s 0" % (c.key, "<=>"[i] if i != 1 else "="))
        else:
            k = c.key
            k = "%s" % (k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == "fmt" else (k,),)
            o.append(("" if i else "not ") + k)
    return " and ".join(o)


def leaf_equal(a, b, pc, extra=()):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return poly_equal(a, b, pc, extra)
    if is_sp(a) or is_sp(b):
        return a == b
    return type(a) is type(b) and a == b


def diff(I, got, want, g=TRUE, extra=(), path="", stats=None, skip=None):
    """First disagreement between two values as (path, cell, got, want), or None."""
    if want is None:
        return None
    if isinstance(want, Agg):
        if not isinstance(got, Agg) or len(got.f) != len(want.f):
            return (path, "always", repr(got)[:200], repr(want)[:200])
        for i, (x, y) in enumerate(zip(got.f, want.f)):
            r = diff(I, x, y, g, extra, path + ".%d" % i, stats, skip)
            if r:
                return r
        return None
    if isinstance(want, Enum):
        if not isinstance(got, Enum):
            return (path, "always", repr(got)[:200], repr(want)[:200])
        r = diff(I, got.tag, want.tag, g, extra, path + ".tag", stats, skip)
        if r:
            return r
        for k, v in want.vs.items():
            gk = applyn(lambda t: TRUE if t == k else core.FALSE, [want.tag])
            gg = AND(g, gk)
            if gg is core.FALSE or not v.f:
                continue
            if k not in got.vs:
                if I.feasible(gg, extra):
                    return (path, "variant %s" % k, "absent", repr(v)[:200])
                continue
            r = diff(I, got.vs[k], v, gg, extra, path + ".v%s" % k, stats, skip)
            if r:
                return r
        return None
    if got is UNDEF or not hasattr(got, "c"):
        return (path, "always", repr(got)[:200], repr(want)[:200])
    both = applyn(lambda a, b: leaf(("pair", a, b)), [got, want])
    for pc, pr in I.prune(both, g, extra):
        if stats is not None:
            stats.cells += 1
        a, b = pr[1], pr[2]
        if leaf_equal(a, b, pc, extra):
            continue
        if skip and skip(a, b, pc):
            continue
        if contradictory(pc, extra):
            continue
        return (path, show_pc(pc), str(a), str(b))
    return None
