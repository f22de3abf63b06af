"""C11, C12, C13, C19, C20, C21: obligations of the per-type implementations of the numeric traits, type by type."""
from fractions import Fraction as Fr
from core import (Poly, pa, atom, dp, dnum, leaf, ite, OR, AND, NOT, TRUE, FALSE, ZERO, applyn, cells, sign_cases)
import core
import compare
import builtins_mn as B
from interp import (Interp, Unsupported, Agg, UNDEF, n_add, n_sub, n_mul, n_div, n_neg, n_cmp, n_fn, n_powi, n_abs,
                    PI_DEC, PIP, NAN, PINF, NINF)
from report import short, loc
from checks_complex import Run, form, comp, var, check_value, guarded, specials, unchanged, CUT, PARTS

FLOAT = {"mixed_sin": "sin", "mixed_cos": "cos", "mixed_tan": "tan", "mixed_asin": "asin", "mixed_acos": "acos",
         "mixed_atan": "atan", "mixed_sinh": "sinh", "mixed_cosh": "cosh", "mixed_tanh": "tanh",
         "mixed_asinh": "asinh", "mixed_acosh": "acosh", "mixed_atanh": "atanh", "mixed_sqrt": "sqrt",
         "mixed_cbrt": "cbrt", "mixed_ceil": "ceil", "mixed_floor": "floor", "mixed_exp": "exp", "mixed_exp2": "exp2",
         "mixed_exp10": "exp10", "mixed_log": "log", "mixed_log2": "log2", "mixed_log10": "log10",
         "mixed_atan2": "atan2", "mixed_pow": "pow"}
CORDIC = {"mixed_sin": "sin", "mixed_cos": "cos", "mixed_asin": "asin", "mixed_acos": "acos", "mixed_atan": "atan",
          "mixed_atan2": "atan2", "mixed_exp": "exp"}
OWN = {"mixed_wrap_phase": "wrap", "mixed_atan2_poly": "atan2_poly"}
ALLC = set(B.FN1) | set(B.FN2) | {"mixed_sincos", "mixed_niirf", "mixed_powi", "mixed_abs", "mixed_sign",
                                 "mixed_is_positive", "mixed_is_negative", "mixed_pi", "mixed_tau", "mixed_zero",
                                 "mixed_one", "mixed_max_value", "mixed_min_value", "mixed_from_num", "mixed_to_num"}


def kind(P, t):
    """'fs'/'fu' fixed, 'is'/'iu' primitive integer, 'fl' float, None otherwise"""
    ty = P.ty(t)
    fx = P.fixed(t)
    if fx:
        return None if fx[2] is None else ("fs" if fx[0] else "fu")
    if ty[0] == "int":
        return "iu" if ty[1][0] == "u" else "is"
    if ty[0] == "float":
        return "fl" if ty[1] in ("f32", "f64") else None
    return None


COUNT = {"fs": 112, "fu": 112, "is": 6, "iu": 6, "fl": 2}


def scalar_impls(P):
    """(fn, kind) of every trait method implemented for a concrete real type"""
    r = getattr(P, "_scalar_impls", None)
    if r is None:
        r = []
        for f in P.fns:
            if f["kind"] == "traitimpl" and f["self"] is not None and f["trait"].startswith("mixed_num::traits"):
                k = kind(P, f["self"])
                if k:
                    r.append((f, k))
        P._scalar_impls = r
    return r


def select(P, names, kinds):
    return [(f, k) for f, k in scalar_impls(P) if f["name"] in names and k in kinds and f["key"] in P.raw]


def per_type_floor(R, P, fs, names, kinds, expect=None):
    """every method exists on every type of the kind"""
    have = {}
    for f, k in fs:
        have.setdefault((f["name"], k), set()).add(f["self"])
    for n in sorted(names):
        for k in kinds:
            if expect is not None and not expect(n, k):
                continue
            R.floor("%s on %s" % (n, KN[k]), len(have.get((n, k), ())), COUNT[k])


KN = {"fs": "signed fixed-point types", "fu": "unsigned fixed-point types", "is": "signed integers",
      "iu": "unsigned integers", "fl": "floats"}


SPECIAL = (("NaN", NAN), ("plus infinity", PINF), ("minus infinity", NINF))


def one_type(R, P, f, spec, parts, **kw):
    name = short(P, f)
    spv_ = kw.pop("special", SPECIAL)

    def one(name=name):
        run = Run(R, P, f, nocontract=ALLC, **kw)
        check_value(R, run, name, run.ret, spec(run), TRUE, parts, "the result")
        unchanged(R, run, name, range(len(f["in"])))
    if guarded(R, name, f, one) and f["self"] is not None and kind(P, f["self"]) == "fl":
        specials(R, P, f, name, one, spv_)


def dispatch_float(R, P, names):
    fs = [(f, k) for f, k in select(P, names, {"fl"})]
    per_type_floor(R, P, fs, names, ["fl"])
    for f, k in fs:
        ty = P.tname(f["self"])
        n = f["name"]
        if n == "mixed_sincos":
            one_type(R, P, f, lambda r: (n_fn("sin@" + ty, r.vals[0]), n_fn("cos@" + ty, r.vals[0])), ("sine (first)", "cosine (second)"), convmode="atom")
        elif n in OWN:
            one_type(R, P, f, lambda r: n_fn(OWN[n], *r.vals), (OWN[n],), convmode="atom")
        elif n == "mixed_niirf":
            one_type(R, P, f, lambda r: n_fn("niirf", r.vals[0], dnum(2)), ("square root",), convmode="atom")
        elif n in FLOAT:
            one_type(R, P, f, lambda r: n_fn(FLOAT[n] + "@" + ty, *r.vals), (FLOAT[n],), convmode="atom")


def dispatch_fixed(R, P, names, kinds=("fs", "fu")):
    fs = select(P, names, set(kinds))
    per_type_floor(R, P, fs, names, kinds, lambda n, k: k == "fs" or n in ("mixed_sqrt", "mixed_niirf"))
    for f, k in fs:
        n = f["name"]
        if n == "mixed_sincos":
            one_type(R, P, f, lambda r: (n_fn("sin@cordic", r.vals[0]), n_fn("cos@cordic", r.vals[0])), ("sine (first)", "cosine (second)"), convmode="atom")
        elif n in ("mixed_sqrt", "mixed_niirf"):
            one_type(R, P, f, lambda r: n_fn("niirf", r.vals[0], dnum(2)), ("square root",), convmode="atom")
        elif n in OWN:
            one_type(R, P, f, lambda r: n_fn(OWN[n], *r.vals), (OWN[n],), convmode="atom")
        elif n in CORDIC:
            one_type(R, P, f, lambda r: n_fn(CORDIC[n] + "@cordic", *r.vals), (CORDIC[n],), convmode="atom")


def dispatch(R, P, names):
    """the numeric-trait contracts a generic formula relies on, discharged on every type that offers them"""
    names = set(names)
    fl = names & (set(FLOAT) | set(OWN) | {"mixed_sincos", "mixed_niirf"})
    if fl:
        dispatch_float(R, P, fl)
    fx = names & (set(CORDIC) | set(OWN) | {"mixed_sincos", "mixed_sqrt", "mixed_niirf"})
    if fx:
        dispatch_fixed(R, P, fx)
    if "constants" in names:
        constants(R, P, ("mixed_zero", "mixed_one"))
    if "mixed_max_value" in names:
        extremes(R, P, ("mixed_max_value",))


def C12(R, P):
    dispatch_float(R, P, set(FLOAT) | {"mixed_sincos"})


def C13(R, P):
    dispatch_fixed(R, P, set(CORDIC) | set(OWN) | {"mixed_sincos", "mixed_sqrt", "mixed_niirf"})


# ------------------------------------------------------------------ conversions
def C11(R, P):
    conversions(R, P, None)


def conversions(R, P, only=None):
    n = {}
    for f in P.fns:
        if f["kind"] != "traitimpl" or f["name"] not in ("mixed_from_num", "mixed_to_num") or \
                not f["trait"].endswith("MixedNumConversion") or f["key"] not in P.raw:
            continue
        S, O = f["trait_args"][0], f["trait_args"][1]
        fs, fo = form(P, S), form(P, O)
        if fs is None or fo is None:
            R.count("conversions outside every formula")
            continue
        if only and not only(fs, fo):
            continue
        k = "%s %s<->%s" % (f["name"], {"C": "Cartesian", "P": "Polar", "S": "real"}[fs], {"C": "Cartesian", "P": "Polar", "S": "real", "N": "num::Complex"}[fo])
        n[k] = n.get(k, 0) + 1
        src, dst = (O, S) if f["name"] == "mixed_from_num" else (S, O)
        name = short(P, f)

        def one():
            run = Run(R, P, f, convmode="atom", nocontract=ALLC)
            w, parts = conv_spec(run, src, dst)
            if w is None:
                R.count("conversions outside every formula")
                return
            check_value(R, run, name, run.ret, w, TRUE, parts, "the converted value")
            unchanged(R, run, name, [0])
        guarded(R, name, f, one)
    if only is None:
        pairs = {"mixed_from_num real<->real": 3332, "mixed_from_num real<->Cartesian": 3164,
                 "mixed_from_num Cartesian<->Cartesian": 1, "mixed_from_num Polar<->real": 1}
        for k, least in pairs.items():
            R.floor(k, n.get(k, 0), least)
            k2 = k.replace("from_num", "to_num")
            R.floor(k2, n.get(k2, 0), least)
        R.notes["conversion_functions"] = n


def conv_spec(run, src, dst):
    P, I = run.P, run.I
    v = run.vals[0]
    a, b = form(P, src), form(P, dst)

    def cv(x, s, d):
        return B.conv(I, x, s, d, TRUE, "spec")
    if a == "S" and b == "S":
        return cv(v, src, dst), ("value",)
    if a == "C" and b == "S":
        return cv(v.f[0], comp(P, src), dst), ("value",)
    if a == "S" and b == "C":
        return (cv(v, src, comp(P, dst)), dnum(0)), PARTS["C"]
    if a == "S" and b == "P":
        return (cv(v, src, comp(P, dst)), dnum(0)), PARTS["P"]
    if a == "P" and b == "S":
        return cv(v.f[0], comp(P, src), dst), ("value",)
    if a == b and a in ("C", "P"):
        return (cv(v.f[0], comp(P, src), comp(P, dst)), cv(v.f[1], comp(P, src), comp(P, dst))), PARTS[a]
    return None, None


# ------------------------------------------------------------------ sign, absolute value, extremes
def C19(R, P):
    kinds = ["fs", "fu", "is", "iu", "fl"]
    names = {"mixed_sign", "mixed_is_positive", "mixed_is_negative", "mixed_abs"}
    fs = select(P, names, set(kinds))
    per_type_floor(R, P, fs, names, kinds)
    for f, k in fs:
        n = f["name"]
        if n == "mixed_sign":
            one_type(R, P, f, lambda r: applyn(lambda x: sign_cases(x, dnum(-1), dnum(1), dnum(1)) if isinstance(x, Poly) else dnum(-1 if x == ("sp", "-inf") else 1), [r.vals[0]]), ("sign",), cut=CUT, special=SPECIAL[1:])
        elif n == "mixed_abs":
            one_type(R, P, f, lambda r: n_abs(r.vals[0]), ("absolute value",))
    # predicates: match the sign away from zero; not both true at zero; a negative predicate is never true on unsigned
    pr = {}
    for f, k in fs:
        if f["name"] in ("mixed_is_positive", "mixed_is_negative"):
            pr.setdefault(f["self"], {})[f["name"]] = (f, k)
    for t, d in sorted(pr.items()):
        runs = {}
        for nm, (f, k) in d.items():
            name = short(P, f)
            pos = nm == "mixed_is_positive"

            def one(name=name):
                run = Run(R, P, f, nocontract=ALLC)
                runs.setdefault(nm, run)
                x = run.vals[0]
                nz = n_cmp("ne", x, dnum(0))
                w = n_cmp("gt" if pos else "lt", x, dnum(0))
                check_value(R, run, name, run.ret, w, nz, ("predicate",), "the predicate")
                unchanged(R, run, name, [0])
            if guarded(R, name, f, one) and k == "fl":
                specials(R, P, f, name, one, SPECIAL[1:])
        if len(runs) == 2:
            a, b = runs["mixed_is_positive"], runs["mixed_is_negative"]
            both = AND(AND(a.ret, b.ret), AND(a.g, b.g))
            R.require(both is FALSE or not a.I.feasible(both), "%s: both predicates" % P.tname(t),
                      "mixed_is_positive and mixed_is_negative are both true on some value", loc(a.f))
            if d["mixed_is_negative"][1] in ("fu", "iu"):
                R.require(b.ret is FALSE or not b.I.feasible(AND(b.ret, b.g)), "%s: negative" % P.tname(t),
                          "an unsigned value is reported as negative", loc(b.f))
    extremes(R, P, ("mixed_max_value", "mixed_min_value"))


def extremes(R, P, names):
    kinds = ["fs", "fu", "is", "iu", "fl"]
    fs = select(P, set(names), set(kinds))
    per_type_floor(R, P, fs, names, kinds)
    for f, k in fs:
        lo, hi = B.type_range(P, f["self"])
        one_type(R, P, f, lambda r: dnum(hi if f["name"] == "mixed_max_value" else lo), ("value",))


# ------------------------------------------------------------------ decibels
def C20(R, P):
    names = {"mixed_mag2db", "mixed_db2mag", "mixed_pow2db", "mixed_db2pow"}
    fs = select(P, names, {"fl"})
    per_type_floor(R, P, fs, names, ["fl"])
    W = {"mixed_mag2db": lambda x: n_mul(dnum(20), n_fn("log10", x)),
         "mixed_pow2db": lambda x: n_mul(dnum(10), n_fn("log10", x)),
         "mixed_db2mag": lambda x: n_fn("exp10", n_div(x, dnum(20))),
         "mixed_db2pow": lambda x: n_fn("exp10", n_div(x, dnum(10)))}
    for f, k in fs:
        name = short(P, f)

        def one(name=name):
            run = Run(R, P, f, nocontract=names)
            check_value(R, run, name, run.ret, W[f["name"]](run.vals[0]), TRUE, ("value",), "the conversion")
            unchanged(R, run, name, [0])
        if guarded(R, name, f, one):
            specials(R, P, f, name, one, SPECIAL)
    dispatch_float(R, P, {"mixed_log10", "mixed_exp10"})


# ------------------------------------------------------------------ constants
def constants(R, P, names):
    V = {"mixed_zero": Fr(0), "mixed_one": Fr(1), "mixed_pi": PI_DEC, "mixed_tau": 2 * PI_DEC}
    kinds = ["fs", "fu", "fl"] + (["is", "iu"] if set(names) & {"mixed_zero", "mixed_one"} else [])
    fs = select(P, set(names), set(kinds))
    per_type_floor(R, P, fs, names, kinds, lambda n, k: k not in ("is", "iu") or n in ("mixed_zero", "mixed_one"))
    for f, k in fs:
        name = short(P, f)

        def one():
            run = Run(R, P, f, nocontract=ALLC, convmode="round")
            v = run.ret
            if not hasattr(v, "c") or v.c is not None or not isinstance(v.v, Poly) or not v.v.is_const():
                R.bad(name, "the value is not a constant: %s" % (v,), loc(f))
                return
            c, want = v.v.const(), V[f["name"]]
            for e in run.I.events:
                if e.kind == "overflow":
                    own = abs(e.val - V[f["name"]]) < Fr(1, 10 ** 9) and e.val > B.type_range(P, f["self"])[1]
                    R.bad(name + (": the constant itself is not representable" if own else ""), "the constant %s is outside the range of %s" % (core.fstr(Fr(e.val)), P.tname(e.ty)), e.loc)
                    return
            lo, hi = B.type_range(P, f["self"])
            if not lo <= c <= hi:
                R.bad(name, "the constant %s is outside the range [%s, %s] of the type" % (core.fstr(c), core.fstr(lo), core.fstr(hi)), loc(f))
                return
            fx = P.fixed(f["self"])
            if f["name"] in ("mixed_zero", "mixed_one"):
                tol = Fr(0)
            else:
                # half a unit of the type's resolution at the constant, or double-precision rounding
                e2 = 1 if want < 4 else 2
                dbl = Fr(1, 2 ** (53 - e2))
                res = Fr(1, 2 ** (fx[2] + 1)) if fx else Fr(1, 2 ** ((24 if P.tname(f["self"]) == "f32" else 53) - e2))
                tol = max(dbl, res)
            R.require(abs(c - want) <= tol, name, "the constant is %s, which differs from %s by %.3g (allowed %.3g)" % (core.fstr(c), core.fstr(want), float(abs(c - want)), float(tol)), loc(f))
        guarded(R, name, f, one)


def C21(R, P):
    constants(R, P, ("mixed_zero", "mixed_one", "mixed_pi", "mixed_tau"))


CHECKS = {n: globals()[n] for n in ("C11", "C12", "C13", "C19", "C20", "C21")}
