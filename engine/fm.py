"""Feasibility of conjunctions of polynomial sign constraints, by linearisation over monomials and Fourier-Motzkin.

infeasible() answering True is exact (no real assignment satisfies the constraints); False means "not refuted"."""
from fractions import Fraction as Fr
import core
from core import Poly, atom_by_id, _nonneg_mono

PI_LO, PI_HI = Fr(314159265358979, 10**14), Fr(314159265358980, 10**14)
CAP = 4000


def facts_for(monos):
    """Linear facts about single monomials: list of (dict mono->coeff, const, strict) meaning expr >= 0 or > 0."""
    out = []
    for m in monos:
        if m == ():
            continue
        if _nonneg_mono(m):
            out.append(({m: Fr(1)}, Fr(0), False))
        if len(m) == 1 and m[0][1] == 1:
            inf = atom_by_id(m[0][0]).info
            if inf:
                if inf.get("lo") is not None:
                    out.append(({m: Fr(1)}, -Fr(inf["lo"]), bool(inf.get("slo"))))
                if inf.get("hi") is not None:
                    out.append(({m: Fr(-1)}, Fr(inf["hi"]), bool(inf.get("shi"))))
    return out


def lin(p):
    d = {}
    c0 = Fr(0)
    for m, c in p.t:
        if m == ():
            c0 = c
        else:
            d[m] = c
    return d, c0


def product_facts(cons, seen):
    """signs of product monomials from the strict signs of single atoms"""
    multi = [m for m in seen if len(m) > 1 or (len(m) == 1 and m[0][1] != 1)]
    if not multi:
        return []
    sg = {}
    for p, rel in cons:
        if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1 and rel in ("<", ">"):
            (m, c), = p.t
            sg[m[0][0]] = 1 if (rel == ">") == (c > 0) else -1
    out = []
    for m in multi:
        s = 1
        for a, e in m:
            x = sg.get(a)
            if x is None:
                inf = atom_by_id(a).info
                if inf and inf.get("lo") is not None and (inf["lo"] > 0 or (inf["lo"] == 0 and inf.get("slo"))):
                    x = 1
                elif atom_by_id(a).kind == "spow" and atom_by_id(a).args[0].is_const() and atom_by_id(a).args[0].const() > 0:
                    x = 1
            if x is None:
                s = None
                break
            if x < 0 and e % 2:
                s = -s
        if s:
            out.append(({m: Fr(s)}, Fr(0), True))
    return out


def is_int_row(d, c):
    if c.denominator != 1:
        return False
    for m, v in d.items():
        if v.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not atom_by_id(a).isint:
                return False
    return True


def infeasible(cons, done=()):
    """cons: list of (Poly, rel), rel in '<','=','>','<=','>='; each means 'poly rel 0'."""
    ineq = []
    eq = []
    seen = set()
    # facts attached to atoms (e.g. post-loop facts) are pulled in transitively
    todo = list(cons)
    used = set()
    i = 0
    while i < len(todo):
        p, rel = todo[i]
        i += 1
        for a in p.atoms():
            if a in used:
                continue
            used.add(a)
            inf = atom_by_id(a).info
            if inf and inf.get("facts"):
                todo.extend(inf["facts"])
    for p, rel in todo:
        d, c = lin(p)
        seen.update(d)
        if rel == "=":
            eq.append((d, c))
        else:
            if rel in ("<", "<="):
                d, c = {m: -v for m, v in d.items()}, -c
            strict = rel in (">", "<")
            if strict and is_int_row(d, c):
                c, strict = c - 1, False
            ineq.append((d, c, strict))
    ineq += facts_for(seen)
    ineq += product_facts(todo, seen)
    # Gaussian elimination of equalities
    while eq:
        d, c = eq.pop()
        if not d:
            if c != 0:
                return True
            continue
        m = next(iter(d))
        k = d[m]

        def sub(dd, cc):
            v = dd.get(m)
            if v is None:
                return dd, cc
            f = v / k
            nd = dict(dd)
            for x, y in d.items():
                nv = nd.get(x, 0) - f * y
                if nv:
                    nd[x] = nv
                else:
                    nd.pop(x, None)
            return nd, cc - f * c
        eq = [sub(a, b) for a, b in eq]
        ineq = [sub(a, b) + (s,) for a, b, s in ineq]
    if fm(ineq):
        return True
    if len(done) < 2:
        # the remainder of a division has the sign of the dividend: case split
        for a in sorted(used):
            inf = atom_by_id(a).info
            if inf and inf.get("split") and a not in done:
                return all(infeasible(list(cons) + alt, done + (a,)) for alt in inf["split"])
    return False


def fm(ineq):
    rows = {}

    def add(d, c, s, rows):
        if not d:
            return c < 0 or (c == 0 and s)
        # scale
        k = abs(next(iter(sorted(d.items())))[1])
        key = tuple(sorted((m, v / k) for m, v in d.items()))
        c = c / k
        o = rows.get(key)
        if o is None or c < o[0] or (c == o[0] and s and not o[1]):
            rows[key] = (c, s)
        return False

    for d, c, s in ineq:
        if add(d, c, s, rows):
            return True
    while rows:
        cnt = {}
        for key in rows:
            for m, v in key:
                a = cnt.setdefault(m, [0, 0])
                a[v > 0] += 1
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos, neg, new = [], [], {}
        for key, (c, s) in rows.items():
            d = dict(key)
            v = d.get(m)
            if v is None:
                if add(d, c, s, new):
                    return True
            elif v > 0:
                pos.append((d, c, s, v))
            else:
                neg.append((d, c, s, -v))
        if len(pos) * len(neg) + len(new) > CAP:
            return False
        for d1, c1, s1, v1 in pos:
            for d2, c2, s2, v2 in neg:
                d = {}
                for x, y in d1.items():
                    d[x] = y / v1
                for x, y in d2.items():
                    nv = d.get(x, 0) + y / v2
                    if nv:
                        d[x] = nv
                    else:
                        d.pop(x, None)
                d.pop(m, None)
                if add(d, c1 / v1 + c2 / v2, s1 or s2, new):
                    return True
        rows = new
    return False


def pc_constraints(pc):
    """Sign constraints of a path condition (tuple of (cond, outcome))."""
    out = []
    for c, i in pc:
        if c.kind == "sign":
            out.append((c.key, "<=>"[i] if i != 1 else "="))
    return out


_memo = {}


def pc_infeasible(pc, extra=()):
    key = (frozenset((c.idx, i) for c, i in pc), tuple(extra))
    r = _memo.get(key)
    if r is None:
        cons = pc_constraints(pc) + list(extra)
        cons = [(p, r) for p, r in cons]
        r = infeasible(cons) if cons else False
        _memo[key] = r
    return r
