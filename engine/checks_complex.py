"""C01-C10: every operator, method, constructor and free function on complex numbers against its formula."""
from core import (Poly, pa, num, atom, dp, dnum, leaf, ite, OR, AND, NOT, TRUE, FALSE, ZERO, applyn, cells)
import sys
import traceback
import core
from fractions import Fraction as Fr
import compare
import fm
import builtins_mn as B
from interp import (Interp, Unsupported, Agg, UNDEF, UNIT, n_add, n_sub, n_mul, n_div, n_neg, n_cmp, n_fn, n_powi,
                    quotients, NAN)
from report import short, loc

OPS = {"core::ops::Add": "add", "core::ops::Sub": "sub", "core::ops::Mul": "mul", "core::ops::Div": "div",
       "core::ops::AddAssign": "add", "core::ops::SubAssign": "sub", "core::ops::MulAssign": "mul",
       "core::ops::DivAssign": "div"}
CUT = set(B.ALIAS_PUB)


def form(P, t):
    """'C' cartesian, 'P' polar, 'N' num complex, 'S' scalar"""
    ty = P.ty(P.peel(t))
    if ty[0] == "adt":
        if ty[1] == "mixed_num::complex::Cartesian":
            return "C"
        if ty[1] == "mixed_num::complex::Polar":
            return "P"
        if ty[1].split("::")[-1] == "Complex" and not ty[1].startswith("mixed_num"):
            return "N"
    if P.numeric(P.peel(t)):
        return "S"
    return None


def comp(P, t):
    return P.ty(P.peel(t))[2][0]


def var(P, t, name):
    ty = P.ty(t)
    return dp(pa(atom("var", name, (), isint=ty[0] == "int", nonneg=P.unsigned(t))))


AT = [None]         # (operand, coordinate or None, special value) of the current special-operand analysis


def special_at(v, i):
    if AT[0] is None or AT[0][0] != i:
        return v
    _, k, x = AT[0]
    if k is None:
        return x
    return Agg([x if j == k else y for j, y in enumerate(v.f)])


def specials(R, P, f, name, fn, values=(("NaN", NAN),)):
    """The obligation once more for each operand coordinate that a float type can make special (real arithmetic has no
    value for it, and NaN fails every comparison)."""
    for i, t in enumerate(f["in"]):
        k = form(P, t)
        t = comp(P, t) if k in ("C", "P", "N") else P.peel(t)
        ty = P.ty(t)
        if k is None or ty[0] == "int" or P.fixed(t):
            continue
        for c in ((0, 1) if k != "S" else (None,)):
            for vn, v in values:
                AT[0] = (i, c, v)
                try:
                    w = "%s, %s %s" % (name, vn, "as operand %d" % (i + 1) if c is None else "as coordinate %d of operand %d" % (c + 1, i + 1))
                    guarded(R, w, f, lambda: fn(w))
                finally:
                    AT[0] = None


class Run:
    """One analysis of a function on symbolic operands."""

    def __init__(self, R, P, f, cut=CUT, fix=None, convmode="value", g=TRUE, names=None, nocontract=(), havoc=False, rec=False):
        self.R, self.P, self.f = R, P, f
        self.I = I = Interp(P, cut=cut, convmode=convmode)
        I.nocontract = set(nocontract)
        if havoc:
            I.havoc, I.max_sym = True, 0
        self.calls = []
        if rec:
            I.rec = (f["key"], self.calls, lambda: self.sym(f["out"], "rec%d" % len(self.calls), None))
        self.st = st = {}
        self.g0 = g
        self.args, self.vals, self.cellof = [], [], []
        for i, t in enumerate(f["in"]):
            nm = names[i] if names else "abcdef"[i]
            v = special_at(self.sym(t, nm, fix.get(i) if fix else None), i)
            self.vals.append(v)
            if P.ty(t)[0] == "ref":
                c = I.new_cell(st, v)
                self.cellof.append(c)
                self.args.append(leaf(("ref", c, ())))
            else:
                self.cellof.append(None)
                self.args.append(v)
        body = P.body(f["key"])
        if body is None:
            raise Unsupported("no body for %s" % f["path"])
        try:
            self.ret, self.out = I.call_body(body, self.args, st, g)
            self.g = I.last_g
        finally:
            R.used(I, f)

    def sym(self, t, nm, fix):
        P = self.P
        if fix is not None:
            return fix
        t = P.peel(t)
        k = form(P, t)
        if k in ("C", "N"):
            return Agg([var(P, comp(P, t), nm + ".re"), var(P, comp(P, t), nm + ".im")])
        if k == "P":
            return Agg([var(P, comp(P, t), nm + ".mag"), var(P, comp(P, t), nm + ".ang")])
        if k == "S":
            return var(P, t, nm)
        raise Unsupported("operand of type %s" % P.tname(t))

    def final(self, i):
        return self.out.get(self.cellof[i], UNDEF)


# ------------------------------------------------------------------ formulas
def hyp(z):
    return n_fn("sqrt", n_add(n_mul(z[0], z[0]), n_mul(z[1], z[1])))


def angle(z):
    return n_fn("atan2", z[1], z[0])


def to_pol(z):
    return (hyp(z), angle(z))


def to_cart(p):
    return (n_mul(p[0], n_fn("cos", p[1])), n_mul(p[0], n_fn("sin", p[1])))


def c_mul(x, y):
    return (n_sub(n_mul(x[0], y[0]), n_mul(x[1], y[1])), n_add(n_mul(x[0], y[1]), n_mul(x[1], y[0])))


def c_div(x, y):
    d = n_add(n_mul(y[0], y[0]), n_mul(y[1], y[1]))
    return (n_div(n_add(n_mul(x[0], y[0]), n_mul(x[1], y[1])), d),
            n_div(n_sub(n_mul(x[1], y[0]), n_mul(x[0], y[1])), d))


def p_mul(x, y):
    z = OR(n_cmp("eq", x[0], dnum(0)), n_cmp("eq", y[0], dnum(0)))
    return (ite(z, dnum(0), n_mul(x[0], y[0])), ite(z, dnum(0), n_add(x[1], y[1])))


def coords(v):
    return v.f


def operand(run, i):
    """(form, value) of operand i; a num::Complex counts as Cartesian"""
    k = form(run.P, run.f["in"][i])
    k = "C" if k == "N" else k
    return k, (run.vals[i].f if k != "S" else run.vals[i])


def scalar(run, i, t):
    """operand i converted to component type t"""
    P = run.P
    return B.conv(run.I, run.vals[i], P.peel(run.f["in"][i]), t, TRUE, "spec")


def op_spec(run, op):
    """(list of coordinates in the left operand's form, guard under which the formula applies, property) or None"""
    P = run.P
    lk, l = operand(run, 0)
    rk, r = operand(run, 1)
    if lk == "S" or lk is None or rk is None:
        return None
    t = comp(P, run.f["in"][0])
    if lk == "C":
        if rk == "C":
            if op in ("add", "sub"):
                f = n_add if op == "add" else n_sub
                return (f(l[0], r[0]), f(l[1], r[1])), TRUE, "C01"
            if op == "mul":
                return c_mul(l, r), TRUE, "C02"
            d = n_add(n_mul(r[0], r[0]), n_mul(r[1], r[1]))
            return c_div(l, r), n_cmp("ne", d, dnum(0)), "C03"
        if rk == "P":
            if op == "mul":
                return c_mul(l, to_cart(r)), TRUE, "C02"
            if op in ("add", "sub"):
                f = n_add if op == "add" else n_sub
                z = to_cart(r)
                return (f(l[0], z[0]), f(l[1], z[1])), TRUE, "C01"
            return None
        s = scalar(run, 1, t)
        if op in ("add", "sub"):
            return ((n_add if op == "add" else n_sub)(l[0], s), l[1]), TRUE, "C01"
        if op == "mul":
            return (n_mul(l[0], s), n_mul(l[1], s)), TRUE, "C02"
        g = AND(n_cmp("ne", run.vals[1], dnum(0)), n_cmp("ne", s, dnum(0)))
        return (n_div(l[0], s), n_div(l[1], s)), g, "C03"
    if rk == "P" and op == "mul":
        return p_mul(l, r), TRUE, "C05"
    if rk == "C" and op == "mul":
        return p_mul(l, to_pol(r)), TRUE, "C05"
    if rk == "S" and op in ("mul", "div"):
        s = scalar(run, 1, t)
        if op == "mul":
            return (n_mul(l[0], s), l[1]), TRUE, "C05"
        return (n_div(l[0], s), l[1]), AND(n_cmp("ne", run.vals[1], dnum(0)), n_cmp("ne", s, dnum(0))), "C05"
    return None


def check_value(R, run, name, got, want, g, parts, what, own=()):
    """one obligation per coordinate"""
    gg = AND(g, run.g)
    if isinstance(want, (tuple, list)):
        if not isinstance(got, Agg) or len(got.f) != len(want):
            R.bad(name, "%s has no such coordinates: %r" % (what, got), loc(run.f))
            return
        pairs = list(zip(parts, got.f, want))
    else:
        pairs = [(parts[0], got, want)]
    for p, x, y in pairs:
        key = "%s, %s" % (name, p)
        try:
            d = compare.diff(run.I, x, y, gg, (), "", R)
        except (Unsupported, core.TooBig) as e:
            R.bad(key, "cannot be decided: %r" % (e,), loc(run.f))
            continue
        if d:
            R.bad(key, "%s when %s: is %s, must be %s" % (p, d[1], d[2], d[3]), loc(run.f))
        else:
            R.ok()
            if len(R.samples) < 6:
                R.samples.append("%s: %s = %s" % (name, p, str(y)[:160]))
    # every input reaches a return
    lost = AND(g, NOT(run.g))
    if lost is not FALSE and run.I.feasible(lost):
        R.bad("%s, no result" % name, "%s yields no value on some inputs" % what, loc(run.f))
    for e in run.I.events:
        if e.kind in ("panic", "unbounded") and run.I.feasible(AND(e.g, g)):
            R.bad("%s, %s" % (name, e.kind), "%s: %s" % (e.kind, e.what), e.loc)
        elif e.kind == "const" and run.P.ty(e.ty[1])[0] == "param" and not isinstance(e.val, Poly) and Fr(e.val).denominator != 1 and e.what.endswith("from_num"):
            # the component type may be an integer or have no fractional bits: the constant is then rounded to another number
            R.require(not run.I.feasible(AND(e.g, g)), "%s, constant %s" % (name, e.val),
                      "the constant %s is not an integer: types without fractional bits round it" % core.fstr(Fr(e.val)), e.loc)
    check_divisions(R, run, name, AND(g, run.g), what, (want,) + tuple(own))


def divisors(v):
    """what the specified value itself divides by"""
    if isinstance(v, (tuple, list)):
        return set().union(*[divisors(x) for x in v])
    out = set()
    if isinstance(v, Poly):
        out.add(core.monic(v)[1])
    for p in core.leaves(v) if hasattr(v, "c") else ():
        if not isinstance(p, Poly):
            continue
        for a in p.atoms(deep=True):
            if core.atom_by_id(a).name == "inv":
                out.add(core.monic(core.atom_by_id(a).args[0])[1])
        for m, _c in p.t:
            out |= {pa(core.atom_by_id(a)) for a, e in m if e < 0}
    return out


def check_divisions(R, run, name, g, what, want):
    """No division of the function may meet a zero divisor on the domain of the formula.  (The values are compared as
    elements of the field of fractions, where x*x/x and x agree; at x = 0 only one of them has a value.)"""
    own = divisors(want)
    for e in run.I.events:
        if e.kind != "div":
            continue
        z = nonzero(run.I, e.val, AND(e.g, g), own)
        if z:
            R.bad("%s, division" % name, "%s divides by %s, which can be zero when %s" % (what, z[1], z[0]), e.loc)
        else:
            R.ok()


def nonzero(I, v, g, own=()):
    """None if no cell of v under g can be zero; else (cell, divisor)"""
    for pc, p in I.prune(v, g):
        if not isinstance(p, core.Poly):
            continue
        if p.is_const() and p.const() != 0 or p.t and core.monic(p)[1] in own:
            continue
        q = core.numerator(p)          # the divisions inside p are obligations of their own
        zero = [(p if q is None else q, "=")]
        if fm.pc_infeasible(pc, zero) or compare.contradictory(pc, zero):
            continue
        return compare.show_pc(pc), str(p)
    return None


PARTS = {"C": ("real part", "imaginary part"), "P": ("magnitude", "angle"), "S": ("value",)}


def guarded(R, name, f, fn, quot=False):
    try:
        with quotients(quot):
            fn(name) if quot else fn()
        return True
    except Unsupported as e:
        R.bad(name, "cannot be decided: %s" % e.what, e.loc or loc(f))
    except (core.TooBig, RecursionError) as e:
        R.bad(name, "cannot be decided: %r" % (type(e).__name__,), loc(f))
    except Exception as e:
        sys.stderr.write(traceback.format_exc())
        R.bad(name, "cannot be decided: internal error %r" % (e,), loc(f))
    return False


def rounded(R, name, f, fn):
    """The obligation once more with divisions as rounded quotients: on integers and fixed-point numbers a rearrangement
    across a division (a reciprocal that is multiplied, a quotient that is scaled, a sum of quotients) is another value."""
    return guarded(R, name + ", rounded once", f, fn, True)


def int_ranges(P, f, run):
    """the bounds that the types of the integer operands put on their values"""
    out = []
    for t, v in zip(f["in"], run.vals):
        v = v if isinstance(v, core.Dg) else None
        if v is not None and P.ty(P.peel(t))[0] == "int" and v.c is None and isinstance(v.v, Poly):
            lo, hi = B.type_range(P, P.peel(t))
            out += [(v.v - num(hi), "<="), (num(lo) - v.v, "<=")]
    return tuple(out)


def unchanged(R, run, name, idx):
    for i in idx:
        if run.cellof[i] is None:
            continue
        v, w = run.final(i), run.vals[i]
        d = compare.diff(run.I, v, w, run.g, (), "", R)
        if d:
            R.bad("%s, operand %d" % (name, i + 1), "an operand that must not change is modified when %s: %s -> %s" % (d[1], d[3], d[2]), loc(run.f))
        else:
            R.ok()


def complex_impls(P):
    return [f for f in P.fns if f["kind"] == "traitimpl" and f["self"] is not None and form(P, f["self"]) in ("C", "P")
            and f["key"] in P.raw]


def operators(R, P, pid):
    """all operator implementations whose formula belongs to property pid"""
    n = {}
    for f in complex_impls(P):
        op = OPS.get(f["trait"])
        if op is None or len(f["in"]) != 2:
            continue
        lk, rk = form(P, f["in"][0]), form(P, f["in"][1])
        rk2 = "C" if rk == "N" else rk
        if not wants(pid, op, lk, rk2):
            continue
        name = short(P, f)
        assign = f["trait"].endswith("Assign")
        k = "%s%s %s x %s" % (op, "-assign" if assign else "", lk, rk)
        n[k] = n.get(k, 0) + 1

        def one(name=name):
            run = Run(R, P, f)
            sp = op_spec(run, op)
            if sp is None:
                R.count("operators outside every formula")
                return
            want, g, p = sp
            got = run.final(0) if assign else run.ret
            if not assign and form(P, f["out"]) != lk:
                R.count("operators outside every formula")
                return
            check_value(R, run, name, got, want, g, PARTS[lk], "the result")
            unchanged(R, run, name, [1] if assign else [0, 1])
        if guarded(R, name, f, one):
            if op == "div":
                rounded(R, name, f, one)
            specials(R, P, f, name, one)
    return n


def wants(pid, op, lk, rk):
    if pid == "C01":
        return lk == "C" and op in ("add", "sub")
    if pid == "C02":
        return lk == "C" and op == "mul"
    if pid == "C03":
        return lk == "C" and op == "div"
    if pid == "C05":
        return lk == "P" and op in ("mul", "div")
    return False


def by_path(P, path):
    return [f for f in P.fns if f["path"] == path and f["key"] in P.raw]


def free(R, P, path, spec, parts, guard=None, extra=None, unch=True, fix=None):
    """a public function checked against spec(run) -> coordinates"""
    fs = by_path(P, path)
    if not fs:
        R.bad("anchor missing: %s" % path, "the function no longer exists")
        return
    for f in fs:
        name = short(P, f)

        def one(name=name):
            run = Run(R, P, f, fix=fix)
            check_value(R, run, name, run.ret, spec(run), guard(run) if guard else TRUE, parts, "the result")
            if unch:
                unchanged(R, run, name, range(len(f["in"])))
        if guarded(R, name, f, one):
            if path.split("::")[-1].startswith("div_"):
                rounded(R, name, f, one)
            specials(R, P, f, name, one)


def method(R, P, trait, name, selfform, spec, parts, least=1, guard=None, want_trait_args=None):
    """a trait method on a complex form, every implementation found"""
    fs = [f for f in complex_impls(P) if f["trait"].split("::")[-1] == trait and f["name"] == name and
          form(P, f["self"]) == selfform]
    R.floor("%s::%s on %s" % (trait, name, {"C": "Cartesian", "P": "Polar"}[selfform]), len(fs), least)
    for f in fs:
        nm = short(P, f)

        def one(nm=nm):
            run = Run(R, P, f)
            w = spec(run)
            if w is None:
                return
            check_value(R, run, nm, run.ret, w, guard(run) if guard else TRUE, parts, "the result")
            unchanged(R, run, nm, range(len(f["in"])))
        if guarded(R, nm, f, one):
            specials(R, P, f, nm, one)


def expect_counts(R, n, table):
    for k, least in table.items():
        R.floor("operator " + k, n.get(k, 0), least)


C_ = "mixed_num::complex::"
A, Bp = 0, 1


def z(run, i):
    return run.vals[i].f


def C01(R, P):
    n = operators(R, P, "C01")
    expect_counts(R, n, {"add C x C": 3, "sub C x C": 3, "add C x N": 3, "sub C x N": 3, "add-assign C x C": 3,
                         "sub-assign C x C": 3, "add-assign C x N": 3, "sub-assign C x N": 3, "add C x S": 1,
                         "sub C x S": 1, "add-assign C x S": 1, "sub-assign C x S": 1})
    free(R, P, C_ + "ops::add", lambda r: (n_add(z(r, 0)[0], z(r, 1)[0]), n_add(z(r, 0)[1], z(r, 1)[1])), PARTS["C"])
    free(R, P, C_ + "ops::sub", lambda r: (n_sub(z(r, 0)[0], z(r, 1)[0]), n_sub(z(r, 0)[1], z(r, 1)[1])), PARTS["C"])


def C02(R, P):
    n = operators(R, P, "C02")
    expect_counts(R, n, {"mul C x C": 3, "mul C x P": 3, "mul C x S": 1, "mul-assign C x P": 3})
    free(R, P, C_ + "ops::mul_cartesian", lambda r: c_mul(z(r, 0), z(r, 1)), PARTS["C"])


def C03(R, P):
    n = operators(R, P, "C03")
    expect_counts(R, n, {"div C x C": 3, "div C x N": 3, "div-assign C x C": 3, "div-assign C x N": 3, "div C x S": 1,
                         "div-assign C x S": 1})
    nz = lambda r: n_cmp("ne", n_add(n_mul(z(r, 1)[0], z(r, 1)[0]), n_mul(z(r, 1)[1], z(r, 1)[1])), dnum(0))
    free(R, P, C_ + "ops::div_cartesian", lambda r: c_div(z(r, 0), z(r, 1)), PARTS["C"], guard=nz)
    free(R, P, C_ + "ops::div_scalar_cartesian",
         lambda r: (n_div(z(r, 0)[0], r.vals[1]), n_div(z(r, 0)[1], r.vals[1])), PARTS["C"],
         guard=lambda r: n_cmp("ne", r.vals[1], dnum(0)))


def C04(R, P):
    """operators and functions run with the scalar divisor equal to zero"""
    n = {}
    todo = []
    for f in complex_impls(P):
        op = OPS.get(f["trait"])
        if op == "div" and form(P, f["in"][1]) == "S":
            todo.append((f, f["trait"].endswith("Assign")))
    for f in by_path(P, C_ + "ops::div_scalar_cartesian"):
        todo.append((f, False))
        n["free function"] = n.get("free function", 0) + 1
    for f, assign in todo:
        lk = form(P, f["in"][0])
        k = "div%s %s x S" % ("-assign" if assign else "", lk)
        n[k] = n.get(k, 0) + 1
        name = short(P, f)

        def one():
            run = Run(R, P, f, fix={1: dnum(0)})
            t = comp(P, f["in"][0])
            mx = B.max_val(run.I, t)
            want = (mx, mx) if lk == "C" else (mx, run.vals[0].f[1])
            got = run.final(0) if assign else run.ret
            check_value(R, run, name, got, want, TRUE, PARTS[lk], "the quotient by zero")
            for e in run.I.events:
                if e.kind in ("arith", "iarith") and e.what in ("Div", "Rem"):
                    z0 = applyn(lambda d: core.sign_cases(d, FALSE, TRUE, FALSE) if isinstance(d, Poly) else FALSE, [e.aux])
                    if run.I.feasible(AND(e.g, z0)):
                        R.bad("%s, divides" % name, "the zero divisor is divided by (a panic on fixed-point and integer types)", e.loc)
                    else:
                        R.ok()
            unchanged(R, run, name, [1] if assign else [0, 1])
        guarded(R, name, f, one)
    expect_counts(R, n, {"div C x S": 2, "div-assign C x S": 1, "div P x S": 1, "free function": 1})


def C05(R, P):
    n = operators(R, P, "C05")
    expect_counts(R, n, {"mul P x P": 1, "mul P x C": 1, "mul P x S": 1, "div P x S": 1})
    free(R, P, C_ + "ops::mul_polar", lambda r: p_mul(z(r, 0), z(r, 1)), PARTS["P"])


def C06(R, P):
    free(R, P, C_ + "ops::to_polar", lambda r: to_pol(z(r, 0)), PARTS["P"])
    free(R, P, C_ + "ops::to_cartesian", lambda r: to_cart(z(r, 0)), PARTS["C"])
    method(R, P, "ToPolar", "to_polar", "C", lambda r: to_pol(z(r, 0)), PARTS["P"])
    method(R, P, "ToPolar", "to_polar", "P", lambda r: z(r, 0), PARTS["P"])
    method(R, P, "ToCartesian", "to_cartesian", "P", lambda r: to_cart(z(r, 0)), PARTS["C"])
    method(R, P, "ToCartesian", "to_cartesian", "C", lambda r: z(r, 0), PARTS["C"])
    method(R, P, "NewFromPolar", "new_from_polar", "C", lambda r: to_cart(r.vals), PARTS["C"])
    method(R, P, "NewFromCartesian", "new_from_cartesian", "P", lambda r: to_pol(r.vals), PARTS["P"])


def C07(R, P):
    for m in ("mag", "abs"):
        method(R, P, "Mag", m, "C", lambda r: hyp(z(r, 0)), ("magnitude",))
        method(R, P, "Mag", m, "P", lambda r: z(r, 0)[0], ("magnitude",))
    for m in ("arg", "ang"):
        method(R, P, "Arg", m, "C", lambda r: angle(z(r, 0)), ("argument",))
        method(R, P, "Arg", m, "P", lambda r: z(r, 0)[1], ("argument",))
    free(R, P, C_ + "ops::abs", lambda r: hyp(z(r, 0)), ("magnitude",))
    method(R, P, "MixedAbs", "mixed_abs", "C", lambda r: (hyp(z(r, 0)), dnum(0)), PARTS["C"])
    method(R, P, "MixedAbs", "mixed_abs", "P", lambda r: (z(r, 0)[0], dnum(0)), PARTS["P"])


def C08(R, P):
    # the result type is a type parameter: the conjugate is handed, coordinate by coordinate, to its constructor
    method(R, P, "Conj", "conj", "C", lambda r: conj_want(r, "call:new_from_cartesian"), ("result",))
    method(R, P, "Conj", "conj", "P", lambda r: conj_want(r, "call:new_from_polar"), ("result",))
    # and the constructors convert (or keep) it
    method(R, P, "NewFromCartesian", "new_from_cartesian", "C", lambda r: tuple(r.vals), PARTS["C"])
    method(R, P, "NewFromPolar", "new_from_polar", "P", lambda r: tuple(r.vals), PARTS["P"])
    method(R, P, "NewFromPolar", "new_from_polar", "C", lambda r: to_cart(r.vals), PARTS["C"])
    method(R, P, "NewFromCartesian", "new_from_cartesian", "P", lambda r: to_pol(r.vals), PARTS["P"])


def conj_want(r, ctor):
    x, y = z(r, 0)
    k = form(r.P, r.f["out"])
    if k == "S":
        return n_fn(ctor, x, n_neg(y))
    return (x, n_neg(y)) if k == form(r.P, r.f["self"]) else None


def C09(R, P):
    for nm, k in (("Cartesian", "C"), ("Polar", "P")):
        fs = [f for f in P.fns if f["kind"] == "inherent" and f["name"] == "new" and f["self"] is not None and
              form(P, f["self"]) == k and f["key"] in P.raw]
        R.floor("%s::new" % nm, len(fs), 1)
        for f in fs:
            def one():
                run = Run(R, P, f)
                check_value(R, run, short(P, f), run.ret, tuple(run.vals), TRUE, PARTS[k], "the constructed number")
            guarded(R, short(P, f), f, one)
        ctor = "new_from_cartesian" if k == "C" else "new_from_polar"
        method(R, P, "NewFromCartesian" if k == "C" else "NewFromPolar", ctor, k, lambda r: tuple(r.vals), PARTS[k])
        method(R, P, "MixedZero", "mixed_zero", k, lambda r: (dnum(0), dnum(0)), PARTS[k])
        method(R, P, "MixedOne", "mixed_one", k, lambda r: (dnum(1), dnum(0)), PARTS[k])
        method(R, P, "MixedComplexConversion", "mixed_to_complex", k, lambda r: (r.vals[0], dnum(0)), PARTS[k])
    method(R, P, "MixedNumConversion", "mixed_from_num", "P",
           lambda r: (scalar(r, 0, comp(r.P, r.f["out"])), dnum(0)) if form(r.P, r.f["in"][0]) == "S" else None, PARTS["P"])


def C10(R, P):
    def ex(r):
        x, y = z(r, 0)
        e = n_fn("exp", x)
        return (n_mul(e, n_fn("cos", y)), n_mul(e, n_fn("sin", y)))
    method(R, P, "MixedExp", "mixed_exp", "C", ex, PARTS["C"])

    def pw(r):
        n = r.vals[1]
        m = n_powi(hyp(z(r, 0)), n)
        th = n_mul(angle(z(r, 0)), n)
        return (n_mul(m, n_fn("cos", th)), n_mul(m, n_fn("sin", th)))
    free(R, P, C_ + "ops::powi", pw, PARTS["C"])


CHECKS = {n: globals()[n] for n in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10")}
