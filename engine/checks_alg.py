"""C14-C18: the library's own algorithms (wrap_phase, powi, niirf, polynomial sine/cosine/arctangent)."""
from fractions import Fraction as Fr
import math
import time
from core import (Poly, pa, num, atom, atom_by_id, dp, dnum, leaf, ite, OR, AND, NOT, TRUE, FALSE, ZERO, ONE, applyn,
                  cells, psubst, is_zero_frac, spow, inverse, sign_cases)
import core
import compare
import fm
import tm
import builtins_mn as B
from interp import (Interp, Unsupported, Agg, UNDEF, is_sp, n_add, n_sub, n_mul, n_div, n_neg, n_cmp, n_fn, n_powi,
                    PI_DEC, PIP, PI, QUOT)
from report import short, loc
from checks_complex import Run, form, check_value, nonzero, guarded, rounded, unchanged, int_ranges, CUT
from checks_types import (select, scalar_impls, kind, one_type, dispatch, per_type_floor, ALLC, OWN, KN, COUNT)

TRIG = "mixed_num::trigonometry::"
X = dp(pa(atom("var", "x")))
XP = X.v


def find(R, P, path):
    fs = [f for f in P.fns if f["path"] == path and f["key"] in P.raw]
    if not R.require(len(fs) == 1, "anchor missing: " + path, "the function %s is not there" % path):
        return None
    return fs[0]


def entry(R, P, f, args, g=TRUE, cut=None, convmode="value", keep=()):
    """Value of function f on the given argument diagrams; its callees among the public algorithms stay symbolic."""
    I = Interp(P, cut=(CUT - {f["path"]} if cut is None else cut), convmode=convmode)
    body = P.body(f["key"])
    try:
        ret, st = I.call_body(body, list(args), {}, g)
    finally:
        R.used(I, f)
    return I, ret, AND(g, I.last_g)


def bad_events(R, I, name, g, f):
    for e in I.events:
        if e.kind in ("panic", "unbounded") and I.feasible(AND(e.g, g)):
            R.bad("%s, %s" % (name, e.kind), "%s: %s" % (e.kind, e.what), e.loc or loc(f))
        elif e.kind == "div" and not name.startswith(("niirf", "powi")):
            # (the square root's divisions are met by its error enclosure, and powers divide by powers: see C15)
            z = nonzero(I, e.val, AND(e.g, g))
            R.require(z is None, "%s, division" % name, "divides by %s, which can be zero when %s" % (z[1], z[0]) if z else "", e.loc or loc(f))


def returns_always(R, I, name, g, got_g, f):
    lost = AND(g, NOT(got_g))
    if lost is not FALSE and I.feasible(lost):
        R.bad("%s, no result" % name, "some inputs yield no value", loc(f))


# ------------------------------------------------------------------ C14
def wrap_conditions(R, name, f, I, v, g, x):
    """result = x + 2*pi*k, in [-pi, pi), and equal to x when x already is"""
    R.require(v is not UNDEF and hasattr(v, "c"), name, "no numeric result", loc(f))
    n = 0
    for pc, r in I.prune(v, g):
        if compare.contradictory(pc):
            continue
        n += 1
        R.cells += 1
        w = compare.show_pc(pc)
        if not isinstance(r, Poly):
            R.bad("%s, value" % name, "when %s the result is %s" % (w, r), loc(f))
            continue
        d = (r - x) * inverse(PIP.scale(2))
        integral = all(c.denominator == 1 and all(atom_by_id(a).isint and e > 0 for a, e in m) for m, c in d.t)
        if not integral:
            # equal through the cell's equalities?
            s = compare.solve_eqs(compare.pc_eqs(pc))
            d = compare.apply_eqs(d, s)
            integral = all(c.denominator == 1 and all(atom_by_id(a).isint and e > 0 for a, e in m) for m, c in d.t)
        R.require(integral, "%s, congruence" % name, "when %s the result %s differs from the angle by %s turns, which is not a whole number" % (w, r, d), loc(f))
        R.require(fm.pc_infeasible(pc, [(r + PIP, "<")]), "%s, lower bound" % name, "when %s the result %s may be below -pi" % (w, r), loc(f))
        R.require(fm.pc_infeasible(pc, [(r - PIP, ">=")]), "%s, upper bound" % name, "when %s the result %s may reach pi" % (w, r), loc(f))
        ident = r == x or fm.pc_infeasible(pc, [(x + PIP, ">="), (x - PIP, "<")]) or \
            compare.poly_equal(r, x, pc, ((x + PIP, ">="), (x - PIP, "<")))
        R.require(ident, "%s, identity in range" % name, "when %s an angle already in [-pi, pi) may be changed to %s" % (w, r), loc(f))
    R.require(n > 0, "%s, no cell" % name, "nothing was analysed", loc(f))


def no_overflow(R, P, name, f, I, types, x):
    """no intermediate value leaves the range of any of the types while the operand is inside it"""
    seen = {}
    for t in types:
        seen.setdefault(B.type_range(P, t), t)
    vals = []
    for e in I.events:
        if e.kind in ("arith", "const") and e.val is not None:
            v = e.val if hasattr(e.val, "c") else dnum(e.val) if not isinstance(e.val, Poly) else dp(e.val)
            vals.append((e, v))
    dead = set()
    for (lo, hi), t in sorted(seen.items(), key=lambda k: k[0][1]):
        # a range that holds what is needed by a narrower one is implied except for the operand: check all
        ext = ((x - num(lo), ">="), (x - num(hi), "<="))
        for e, v in vals:
            k = (e.loc, e.what)
            if k in dead:
                continue
            for pc, p in I.prune(v, e.g):
                if not isinstance(p, Poly):
                    continue
                if fm.pc_infeasible(pc, ext):
                    continue
                # half a unit of slack: pi itself is rounded to the type's resolution
                over = not fm.pc_infeasible(pc, ext + ((p - num(hi + (hi - lo) / 2 ** 10), ">"),)) or \
                    not fm.pc_infeasible(pc, ext + ((p - num(lo - (hi - lo) / 2 ** 10), "<"),))
                if over:
                    dead.add(k)
                    R.bad("%s, intermediate range, %s" % (name, e.what), "on %s (range [%s, %s]) the value %s may overflow when %s" % (P.tname(t), core.fstr(lo), core.fstr(hi), p, compare.show_pc(pc)), e.loc)
                    break
            else:
                R.ok()


def verify_wrap(R, P, f, name, types):
    def one():
        I, v, g = entry(R, P, f, [X])
        returns_always(R, I, name, TRUE, g, f)
        bad_events(R, I, name, TRUE, f)
        wrap_conditions(R, name, f, I, v, g, XP)
        no_overflow(R, P, name, f, I, types, XP)

    def exact(name):
        # the same with divisions of the angle as opaque rounded quotients: the range may not depend on their being exact
        I, v, g = entry(R, P, f, [X])
        wrap_conditions(R, name, f, I, v, g, XP)
    if guarded(R, name, f, one):
        rounded(R, name, f, exact)


def C14(R, P):
    fs = select(P, {"mixed_wrap_phase"}, {"fs", "fl"})
    per_type_floor(R, P, fs, {"mixed_wrap_phase"}, ["fs", "fl"])
    f = find(R, P, TRIG + "wrap_phase")
    if f:
        verify_wrap(R, P, f, "wrap_phase", [m["self"] for m, k in fs if k == "fs"])
    # the method is the function, on every type
    for m, k in fs:
        name = short(P, m)

        def one():
            run = Run(R, P, m, nocontract=ALLC, convmode="atom")
            if run.ret is n_fn("wrap", run.vals[0]) and not [e for e in run.I.events if e.kind in ("panic", "unbounded")]:
                R.ok()
            else:
                direct(R, P, m, k, name)
            unchanged(R, run, name, [0])
        guarded(R, name, m, one)


def direct(R, P, m, k, name):
    """a method that does not simply call wrap_phase is verified on its own"""
    run = Run(R, P, m, nocontract=ALLC - {"mixed_pi", "mixed_tau", "mixed_zero", "mixed_one"}, convmode="value", cut=CUT - {TRIG + "wrap_phase"})
    bad_events(R, run.I, name, TRUE, m)
    wrap_conditions(R, name, m, run.I, run.ret, run.g, run.vals[0].v)
    if k == "fs":
        no_overflow(R, P, name, m, run.I, [m["self"]], run.vals[0].v)


# ------------------------------------------------------------------ C15
NV = dp(pa(atom("var", "n", (), isint=True, nonneg=True)))


def pow_spec(x, n):
    """x multiplied n times, n >= 0"""
    return ite(n_cmp("eq", n, dnum(0)), dnum(1), ite(n_cmp("eq", n, dnum(1)), x, applyn(lambda a, k: dp(spow(a, k)), [x, n])))


SAMPLE_N = sorted(set(range(0, 40)) | {2 ** k + d for k in range(5, 31) for d in (-1, 0, 1)})


def C15(R, P):
    f = find(R, P, TRIG + "powi")
    if f:
        def one():
            try:
                I, v, g = entry(R, P, f, [X, NV])
                why = None
            except (Unsupported, core.TooBig) as e:
                why = getattr(e, "what", "the value graph grows too large")
            if why is None:
                returns_always(R, I, "powi", TRUE, g, f)
                bad_events(R, I, "powi", TRUE, f)
                for e in I.events:
                    if e.kind == "usub":
                        R.require(not I.feasible(AND(e.g, n_cmp("lt", e.val, dnum(0)))), "powi, unsigned subtraction", "a count may fall below zero: %s" % e.what, e.loc)
                d = compare.diff(I, v, pow_spec(X, NV), g, (), "", R)
                R.require(not d, "powi, value", "when %s: is %s, must be %s" % (d[1], d[2], d[3]) if d else "", loc(f))
                return
            # the loop has no affine summary (e.g. repeated squaring): decide it for each exponent of a set with every bit pattern class
            R.notes["powi_mode"] = "per exponent: " + str(why)
            for n in [k for k in SAMPLE_N if k <= 300]:
                I, v, g = entry(R, P, f, [X, dnum(n)])
                bad_events(R, I, "powi", TRUE, f)
                d = compare.diff(I, v, dp(spow(XP, num(n))), g, (), "", R)
                if d:
                    R.bad("powi, value", "with exponent %d: is %s, must be %s" % (n, d[2], d[3]), loc(f))
                    return
                R.ok()
        guarded(R, "powi", f, one)
    fs = select(P, {"mixed_powi"}, set(COUNT))
    per_type_floor(R, P, fs, {"mixed_powi"}, list(COUNT))
    # the method, including the most negative exponent
    for m, k in fs:
        name = short(P, m)

        def one(name=name, k=k):
            run = Run(R, P, m, nocontract=ALLC, names=["x", "n"])
            x, n = run.vals
            if k == "fl":
                want = n_powi(x, n)
            else:
                isint = k in ("is", "iu")
                neg = n_cmp("lt", n, dnum(0))
                pn = applyn(lambda a, q: dp(spow(a, -q)), [x, n])
                rec = applyn(lambda a: dp(B.I_.p_idiv(ONE, a)), [pn]) if isint else applyn(lambda a: n_div(dnum(1), dp(a)), [pn]) if QUOT[0] else applyn(lambda a, q: dp(spow(a, q)), [x, n])
                want = ite(neg, rec, applyn(lambda a, q: dp(spow(a, q)), [x, n]))
            check_value(R, run, name, run.ret, want, TRUE, ("value",), "the power", [p for p in core.leaves(applyn(lambda a, q: dp(spow(a, -q)), [x, n])) if isinstance(p, Poly)])
            unchanged(R, run, name, [0])
            for e in run.I.events:
                if e.kind == "ineg":
                    lo = B.type_range(P, e.ty)[0]
                    at_min = applyn(lambda p: sign_cases(p - num(lo), FALSE, TRUE, FALSE), [e.val])
                    R.require(not run.I.feasible(AND(e.g, at_min), int_ranges(P, m, run)), name + ", smallest exponent", "%s overflows" % e.what, e.loc)
        if guarded(R, name, m, one) and k in ("fs", "fu"):
            rounded(R, name, m, one)


# ------------------------------------------------------------------ C16
REL = Fr(1, 1000)


def root_cell(R, name, I, f, pc, r, absx, where):
    """one cell of niirf: r = sqrt(|x|) (1 + e) with |e| < REL. Returns an error text or None."""
    # the normalised value: the operand itself or the last power-of-base normalisation of it
    if not isinstance(r, Poly):
        return "the result is %s" % (r,)
    if not r.t:
        return "the result is 0"
    chain = []           # X_i = X_{i-1} * f_i^K_i
    cur = absx
    geo = {}
    for a in list(core._atom_list):
        if a.info and a.info.get("geo") and a.name.startswith("norm"):
            geo.setdefault(a.info["geo"][0], []).append(a)
    atoms = set(r.atoms(deep=True))
    for c, _i in pc:
        if c.kind == "sign":
            atoms |= c.key.atoms(deep=True)
    scale = ONE
    for _ in range(8):
        nx = [a for a in geo.get(cur, []) if a.id in atoms]
        if not nx:
            break
        a = nx[0]
        v0, base, K = a.info["geo"]
        # v0 = X * base^-K ; sqrt(v0) = sqrt(X) * base^(-K/2)
        half = Fr(base)
        rt = Fr(math.isqrt(half.numerator), 1) / Fr(math.isqrt(half.denominator), 1)
        if rt * rt != half:
            return "the normalisation factor %s per step is not a square" % core.fstr(half)
        scale = scale * spow(num(rt), -pa(K))
        cur = pa(a)
    y = r * inverse(scale)
    ids = y.atoms(deep=True)
    if len(cur.t) != 1:
        return "unrecognised normalised value %s" % cur
    (m, c), = cur.t
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
        return "unrecognised normalised value %s" % cur
    va = m[0][0]
    if not ids <= {va, PI.id}:
        return "the normalisation is not undone exactly: %s remains for normalised value %s" % (y, cur)
    # range of the normalised value in this cell, by the linear conditions on it
    lo, hi = Fr(0), None
    for q, rel in fm.pc_constraints(pc) + list(atom_by_id(va).info.get("facts", []) if atom_by_id(va).info else []):
        if q.atoms() != {va} or any(len(mm) > 1 or (mm and mm[0][1] != 1) for mm, _ in q.t):
            continue
        d, c0 = fm.lin(q)
        k = list(d.values())[0]
        b = -c0 / k * c          # bound on cur = c*atom
        rel2 = rel if k * c > 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "=": "="}[rel]
        if rel2 in ("<", "<=", "="):
            hi = b if hi is None else min(hi, b)
        if rel2 in (">", ">=", "="):
            lo = max(lo, b)
    if hi is None or lo <= 0 or hi / lo > 10 ** 6:
        return "the normalised value is not confined: between %s and %s" % (lo, hi)
    if lo > hi:
        return None
    # with X = s^2: |y(s^2) - s| <= REL*s on [sqrt lo, sqrt hi]
    slo = tm.rows(tm.isqrt_point(lo))[0]
    shi = tm.rows(tm.isqrt_point(hi))[1]
    slo, shi = max(slo - Fr(1, 2 ** 100), Fr(0)), shi

    def env(cc, rr):
        s = tm.tvar(cc, rr)
        x = s * s
        return {va: x if c > 0 else -x}

    def tol(cc, rr):
        return int((cc - tm.rows(rr)[1]) * REL * tm.S)
    box, _pc, _l, msg, n, worst = tm.bound([((), y)], slo, shi, env, lambda cc, rr: tm.tvar(cc, rr), tol, 2)
    R.count("enclosure boxes", n)
    R.notes["worst_niirf_abs_error_" + where] = max(R.notes.get("worst_niirf_abs_error_" + where, 0), float(worst))
    if box:
        return "near normalised value %.6g the result is not within %s of the root: %s" % (float(box[0] ** 2), REL, msg)
    return None


def C16(R, P):
    f = find(R, P, TRIG + "sqrt::niirf")
    if f:
        its = [2, 3, 4, 5] if R.tier == "quick" else [2, 3, 4, 5, 6]
        for it in its:
            if R.fail and time.time() - R.t0 > 150:
                break
            name = "niirf with %d iterations" % it

            def one():
                try:
                    I, v, g = entry(R, P, f, [X, dnum(it)])
                except (Unsupported, core.TooBig) as e:
                    by_magnitude(R, P, f, it, name, e)
                    return
                returns_always(R, I, name, TRUE, g, f)
                bad_events(R, I, name, TRUE, f)
                n = 0
                for sgn, absx in ((">", XP), ("<", -XP)):
                    for pc, r in I.prune(v, g, ((XP, sgn),)):
                        # beyond the largest value of the type there is nothing to compute
                        if beyond_max(pc, absx) or compare.contradictory(pc, ((XP, sgn),)):
                            continue
                        n += 1
                        R.cells += 1
                        e = root_cell(R, name, I, f, pc, r, absx, "n%d" % it)
                        R.require(e is None, "%s, accuracy" % name, "when %s: %s" % (compare.show_pc(pc), e), loc(f))
                R.floor("accuracy cells, %d iterations" % it, n, 2)
                for pc, r in I.prune(v, g, ((XP, "="),)):
                    if compare.contradictory(pc, ((XP, "="),)):
                        continue
                    r0 = compare.apply_eqs(r, [(XP.t[0][0][0][0], ZERO)]) if isinstance(r, Poly) else r
                    R.require(isinstance(r0, Poly) and not r0.t, "%s, root of zero" % name, "the root of zero is %s" % (r0,), loc(f))
            guarded(R, name, f, one)
        # special values: the computation terminates, and the root of +infinity is not a number below the largest value
        for s in ("+inf", "-inf", "nan"):
            name = "niirf of %s" % s

            def one():
                I, v, g = entry(R, P, f, [leaf(("sp", s)), dnum(2)])
                returns_always(R, I, name, TRUE, g, f)
                bad_events(R, I, name, TRUE, f)
                R.ok()
            guarded(R, name, f, one)
        # an operand whose absolute value does not exist in the type (it stays negative): terminates too
        name = "niirf of the most negative value"

        def one():
            I = Interp(P, cut=CUT - {f["path"]})
            I.wrapping_abs = True
            v, st = I.call_body(P.body(f["key"]), [X, dnum(2)], {}, n_cmp("lt", X, dnum(0)))
            R.used(I, f)
            bad_events(R, I, name, TRUE, f)
            R.ok()
        guarded(R, name, f, one)
    dispatch(R, P, {"mixed_niirf", "mixed_sqrt"} if False else {"mixed_niirf"})


def by_magnitude(R, P, f, it, name, why):
    """The normalisation loops have no summary: decide one power-of-four range of the operand at a time, where they unroll."""
    R.notes["niirf_mode"] = "per magnitude range: %s" % getattr(why, "what", "the value graph grows too large")
    for sgn in (1, -1):
        ax = XP.scale(sgn)
        for E in range(-9, 10) if R.tier == "quick" else range(-34, 35):
            # operand = x * 4^E with 1/4 <= |x| < 1, so its root is sqrt|x| * 2^E
            g0 = AND(n_cmp("ge", dp(ax), dnum(Fr(1, 4))), n_cmp("lt", dp(ax), dnum(1)))
            I, v, g = entry(R, P, f, [dp(XP.scale(Fr(4) ** E)), dnum(it)], g0)
            returns_always(R, I, name, g0, g, f)
            bad_events(R, I, name, g0, f)
            n = 0
            for pc, r in I.prune(v, g):
                if beyond_max(pc, ax.scale(Fr(4) ** E)) or compare.contradictory(pc):
                    continue
                n += 1
                e = root_cell(R, name, I, f, pc, r.scale(Fr(1, 2) ** E) if isinstance(r, Poly) else r, ax, "n%d" % it)
                R.require(e is None, "%s, accuracy" % name, "when %s: %s" % (compare.show_pc(pc), e), loc(f))
            R.require(n > 0, name, "no cell analysed", loc(f))
    I, v, g = entry(R, P, f, [dnum(0), dnum(it)])
    R.require(v is dnum(0), "%s, root of zero" % name, "the root of zero is %s" % (v,), loc(f))


def beyond_max(pc, absx):
    for a in core._atom_list:
        if a.name == "MAX" and fm.pc_infeasible(pc, ((absx - pa(a), "<="),)):
            return True
    return False


# ------------------------------------------------------------------ C17
PIQ = Fr("3.14159265358979323846264338327950288419716939937510582098")
EPS = Fr(4, 10 ** 6)


def numeric_env(a):
    return lambda c, r: {a: tm.tvar(c, r)}


def sine_bound(R, name, f, I, v, g):
    cs = [(pc, l) for pc, l in I.prune(v, g)]
    R.cells += len(cs)
    xid = XP.t[0][0][0][0]
    t = int(EPS * tm.S)
    box, pc, l, msg, n, worst = tm.bound(cs, -PIQ, PIQ, numeric_env(xid), lambda c, r: tm.tsin(c, r), lambda c, r: t, 64 if R.tier == "quick" else 512)
    R.count("enclosure boxes", n)
    R.notes["worst_sine_error"] = float(worst)
    R.require(box is None, "%s, error bound" % name, "near x = %.9g (%s) the value %s is not within 4e-6 of the sine: %s" % (float(box[0]), compare.show_pc(pc), l, msg) if box else "", loc(f))


def C17(R, P):
    f = find(R, P, TRIG + "sin")
    if f:
        def one():
            I, v, g = entry(R, P, f, [X])
            returns_always(R, I, "sin", TRUE, g, f)
            bad_events(R, I, "sin", TRUE, f)
            sine_bound(R, "sin", f, I, v, g)
        guarded(R, "sin", f, one)
    h = find(R, P, TRIG + "cos")
    if h:
        def two():
            I, v, g = entry(R, P, h, [X])
            returns_always(R, I, "cos", TRUE, g, h)
            bad_events(R, I, "cos", TRUE, h)
            # cos x = sin(wrap(x + pi/2)), or sin(wrap(pi/2 - x)): the polynomial sine of an angle in [-pi, pi)
            for pc, r in I.prune(v, g):
                e = cos_form(r, pc)
                R.require(e is None, "cos, form", "when %s the value is %s: %s" % (compare.show_pc(pc), r, e), loc(h))
        guarded(R, "cos", h, two)
    # the wrapped angle lies in [-pi, pi): C14 on the function itself
    w = find(R, P, TRIG + "wrap_phase")
    if w:
        def three():
            I, v, g = entry(R, P, w, [X])
            wrap_conditions(R, "wrap_phase", w, I, v, g, XP)
        guarded(R, "wrap_phase", w, three)


def atom_of(p):
    if isinstance(p, Poly) and len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1 and abs(p.t[0][1]) == 1:
        return atom_by_id(p.t[0][0][0][0]), p.t[0][1]
    return None, None


def cos_form(r, pc):
    a, c = atom_of(r)
    if a is None or a.name != "sin_poly":
        return "not a polynomial sine"
    s = a.args[0]
    w, k = atom_of(s)
    if w is not None and w.name == "wrap":
        arg = w.args[0].scale(k)
    elif fm.pc_infeasible(pc, ((s + PIP, "<"),)) and fm.pc_infeasible(pc, ((s - PIP, ">"),)):
        arg = s                 # already within [-pi, pi] in this cell
    else:
        return "its argument is not confined to [-pi, pi]"
    # sin(arg)*c must be cos(x): arg = +-x + pi/2 (c = 1) or +-x - pi/2 (c = -1), modulo 2 pi
    for sx in (1, -1):
        d = (arg - XP.scale(sx)) * inverse(PIP)
        if d.is_const():
            h = d.const() - Fr(1, 2) * c
            if h.denominator == 1 and h % 2 == 0:
                return None
    return "its argument is %s" % arg


# ------------------------------------------------------------------ C18
TOL18 = Fr(3, 10) * PIQ / 180
YP, XXP = pa(atom("var", "y")), pa(atom("var", "xx"))


def octants(R, name, f, I, v, g):
    y, x = YP.t[0][0][0][0], XXP.t[0][0][0][0]
    lam = pa(atom("var", "lam", (), nonneg=True))
    sc = {y: YP * lam, x: XXP * lam}
    cs = []
    for pc, l in I.prune(v, g):
        if compare.contradictory(pc):
            continue
        cs.append((pc, l))
    R.cells += len(cs)
    # homogeneity: conditions and values depend on the direction only
    for pc, l in cs:
        for c, _i in pc:
            if c.kind != "sign":
                R.bad("%s, direction" % name, "the result depends on %s" % (c,), loc(f))
                return
            q = psubst(c.key, sc)
            if not any(is_zero_frac(q - c.key * core.ipow(lam, k)) for k in (0, 1, 2, 3, 4, -1, -2)) or c.key.is_const():
                R.bad("%s, direction" % name, "the condition on %s does not only depend on the direction" % c.key, loc(f))
                return
        if not isinstance(l, Poly) or not is_zero_frac(psubst(l, sc) - l):
            if isinstance(l, Poly) and compare.poly_equal(psubst(l, sc), l, pc):
                continue
            if all_axis(pc, x, y):
                continue
            R.bad("%s, direction" % name, "when %s the value %s does not only depend on the direction" % (compare.show_pc(pc), l), loc(f))
            return
        R.ok()
    # the four edges of the square max(|x|,|y|) = 1
    H = tm.imul(tm.PI, tm.iv(Fr(1, 2)))

    def edge(fix, val):
        def env(c, r):
            t = tm.tvar(c, r)
            k = tm.tconst(tm.iv(val), r)
            return {x: k, y: t} if fix == "x" else {y: k, x: t}
        return env

    def truth(fix, val, neg):
        def tr(c, r):
            a = tm.tatan(c, r)
            if fix == "x" and val == 1:
                return a
            if fix == "x":                      # angle of (-1, t)
                return tm.tconst(tm.PI if not neg else tm.ineg(tm.PI), r) - a
            if val == 1:                        # angle of (t, 1)
                return tm.tconst(H, r) - a
            return a - tm.tconst(H, r)
        return tr
    t18 = int(TOL18 * tm.S)
    pieces = 32 if R.tier == "quick" else 256
    for fix, val, lo, hi, neg in (("x", 1, -1, 1, 0), ("y", 1, -1, 1, 0), ("y", -1, -1, 1, 0), ("x", -1, 0, 1, 0), ("x", -1, -1, 0, 1)):
        open_cells = cs
        if neg:
            # the open half: directions just below the negative x axis
            open_cells = [(pc, l) for pc, l in cs if not fm.pc_infeasible(pc, ((YP, "<"),))]
        box, pc, l, msg, n, worst = tm.bound(open_cells, lo, hi, edge(fix, val), truth(fix, val, neg), lambda c, r: t18, pieces)
        R.count("enclosure boxes", n)
        R.notes["worst_atan2_error_deg"] = max(R.notes.get("worst_atan2_error_deg", 0), float(worst) * 57.29577951308232)
        d = "(x, y) = (%s)" % ("%d, %.9g" % (val, float(box[0])) if fix == "x" else "%.9g, %d" % (float(box[0]), val)) if box else ""
        R.require(box is None, "%s, error bound on the edge %s = %d" % (name, fix, val), "near direction %s (%s) the value %s is not within 0.3 degrees: %s" % (d, compare.show_pc(pc or ()), l, msg), loc(f))
    # exact on the axes
    for nm, ext, want in (("origin", ((YP, "="), (XXP, "=")), ZERO), ("positive x axis", ((YP, "="), (XXP, ">")), ZERO),
                          ("negative x axis", ((YP, "="), (XXP, "<")), PIP), ("positive y axis", ((XXP, "="), (YP, ">")), PIP.scale(Fr(1, 2))),
                          ("negative y axis", ((XXP, "="), (YP, "<")), PIP.scale(Fr(-1, 2)))):
        d = compare.diff(I, v, dp(want), g, ext, "", R)
        R.require(not d, "%s, %s" % (name, nm), "when %s: is %s, must be exactly %s" % (d[1], d[2], d[3]) if d else "", loc(f))


def all_axis(pc, x, y):
    e = [c.key for c, i in pc if c.kind == "sign" and i == 1]
    return any(k.atoms() <= {x} or k.atoms() <= {y} for k in e)


def C18(R, P):
    f = find(R, P, TRIG + "atan::atan2")
    if f:
        def one():
            I, v, g = entry(R, P, f, [dp(YP), dp(XXP)])
            returns_always(R, I, "atan2", TRUE, g, f)
            bad_events(R, I, "atan2", TRUE, f)
            octants(R, "atan2", f, I, v, g)
        guarded(R, "atan2", f, one)
    h = find(R, P, TRIG + "atan::atan")
    if h:
        def two():
            I, v, g = entry(R, P, h, [X])
            d = compare.diff(I, v, n_fn("atan2_poly", X, dnum(1)), g, (), "", R)
            if d and f:
                # not a plain call: compare with the body of atan2 at (x, 1)
                I, v, g = entry(R, P, h, [X], cut=CUT - {h["path"], f["path"]})
                J, w, g2 = entry(R, P, f, [X, dnum(1)])
                d = compare.diff(I, v, w, AND(g, g2), (), "", R)
            returns_always(R, I, "atan", TRUE, g, h)
            bad_events(R, I, "atan", TRUE, h)
            R.require(not d, "atan, value", "when %s: is %s, must be atan2(x, 1): %s" % (d[1], d[2], d[3]) if d else "", loc(h))
        guarded(R, "atan", h, two)
    dispatch(R, P, {"mixed_atan2_poly"})


CHECKS = {n: globals()[n] for n in ("C14", "C15", "C16", "C17", "C18")}
