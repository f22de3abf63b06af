"""Transfer functions of calls: operator traits, the contracts of the numeric traits (each contract is itself the
obligation of another check), the external libraries' entry points, formatting, iterators; everything else is inlined."""
from fractions import Fraction as Fr
import re
import struct
import core
from core import (Poly, num, pa, atom, leaf, dp, dnum, cond, outcome, node, ite, AND, OR, NOT, TRUE, FALSE, ZERO, ONE,
                  applyn, sign_cases, Dg, cells, fresh)
import interp as I_
from interp import (step, Agg, Enum, UNIT, UNDEF, vite, vmap, vsub, n_add, n_sub, n_mul, n_div, n_idiv, n_rem, n_neg, n_cmp,
                    n_abs, n_fn, n_powi, is_sp, spv, PIP, Unsupported, leaf, NAN)

BIN = {"add": n_add, "sub": n_sub, "mul": n_mul}
CMPS = {"lt", "le", "gt", "ge", "eq", "ne"}
LIBM = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan2",
        "sqrt", "cbrt", "ceil", "floor", "exp", "exp2", "exp10", "pow", "log", "log2", "log10", "sincos"]
# contracts of the local numeric traits: method -> (function name, arity)
FN1 = {"mixed_sin": "sin", "mixed_cos": "cos", "mixed_tan": "tan", "mixed_asin": "asin", "mixed_acos": "acos",
       "mixed_atan": "atan", "mixed_sinh": "sinh", "mixed_cosh": "cosh", "mixed_tanh": "tanh", "mixed_asinh": "asinh",
       "mixed_acosh": "acosh", "mixed_atanh": "atanh", "mixed_sqrt": "sqrt", "mixed_cbrt": "cbrt",
       "mixed_ceil": "ceil", "mixed_floor": "floor", "mixed_exp": "exp", "mixed_exp2": "exp2", "mixed_exp10": "exp10",
       "mixed_log": "log", "mixed_log2": "log2", "mixed_log10": "log10", "mixed_wrap_phase": "wrap",
       "mixed_mag2db": "mag2db", "mixed_db2mag": "db2mag", "mixed_pow2db": "pow2db", "mixed_db2pow": "db2pow"}
FN2 = {"mixed_atan2": "atan2", "mixed_atan2_poly": "atan2_poly", "mixed_pow": "pow"}


def FMAX(name):
    return Fr(struct.unpack("<f", struct.pack("<I", 0x7f7fffff))[0]) if name == "f32" else \
        Fr(struct.unpack("<d", struct.pack("<Q", 0x7fefffffffffffff))[0])


def type_range(P, t):
    """(min, max) of a concrete numeric type"""
    ty = P.ty(t)
    fx = P.fixed(t)
    if fx and fx[2] is not None:
        s, b, f = fx
        return (Fr(-2 ** (b - 1), 2 ** f), Fr(2 ** (b - 1) - 1, 2 ** f)) if s else (Fr(0), Fr(2 ** b - 1, 2 ** f))
    if ty[0] == "int":
        lo, hi = P.int_range(ty[1])
        if ty[1].endswith("128"):
            lo, hi = (0, 2 ** 128 - 1) if ty[1][0] == "u" else (-2 ** 127, 2 ** 127 - 1)
        return Fr(lo), Fr(hi)
    if ty[0] == "float":
        m = FMAX(ty[1])
        return -m, m
    return None


def max_val(I, t):
    r = type_range(I.P, t)
    if r:
        return dnum(r[1])
    return dp(pa(atom("const", "MAX", (I.P.tname(t),), nonneg=True, info={"lo": 3})))


def min_val(I, t):
    r = type_range(I.P, t)
    if r:
        return dnum(r[0])
    return dp(pa(atom("const", "MIN", (I.P.tname(t),), info={"hi": 0})))


def const_hook(I, F, t, v, k):
    """constants the dump could not evaluate (associated constants of a type parameter)"""
    path = (k.get("path") or "")
    if path.endswith("::MAX") and I.P.numeric(t):
        return max_val(I, t)
    if path.endswith("::MIN") and I.P.numeric(t):
        return min_val(I, t)
    if path.endswith("SizedTypeProperties::IS_ZST"):
        return FALSE
    return None


def bits_of(name):
    return 64 if name.endswith("size") else int(name[1:])


def conv(I, a, src, dst, g, how):
    """numeric conversion of the value a from type src to type dst"""
    P = I.P
    sn, dn = P.tname(src), P.tname(dst)
    st, dt = P.ty(src), P.ty(dst)

    if sn == dn:
        return a

    def f(x):
        if is_sp(x):
            return leaf(x)
        if not isinstance(x, Poly):
            raise Unsupported("conversion of a non-numeric value", I.loc)
        if x.is_const():
            c = x.const()
            if dt[0] == "int":
                lo, hi = type_range(P, dst)
                i = int(c)
                if c.denominator != 1:
                    i = int(c) if st[0] == "float" else (c.numerator // c.denominator)
                if st[0] == "float":
                    i = min(max(i, int(lo)), int(hi))
                else:
                    m = int(hi) - int(lo) + 1
                    i = (i - int(lo)) % m + int(lo)
                return dnum(i)
            if dt[0] == "float" and dt[1] == "f32":
                return dnum(to_f32(c))
            if dt[0] == "float":
                return dnum(Fr(float(c)))
            fx = P.fixed(dst)
            if fx and fx[2] is not None and I.convmode == "round":
                q = c * 2 ** fx[2]
                i = q.numerator // q.denominator
                if st[0] == "float":          # to the nearest, ties to even
                    r = q - i
                    if r > Fr(1, 2) or (r == Fr(1, 2) and i % 2):
                        i += 1
                v = Fr(i, 2 ** fx[2])
                lo, hi = type_range(P, dst)
                if not lo <= v <= hi:
                    I.event("overflow", g, how, c, dst)
                return dnum(v)
            return leaf(x)
        if I.convmode == "atom":
            return dp(pa(atom("fn", "conv[%s->%s]" % (sn, dn), (x,), nonneg=P.unsigned(dst), isint=dt[0] == "int")))
        if st[0] == "int" and dt[0] == "int":
            sb, db = bits_of(st[1]), bits_of(dt[1])
            ssg, dsg = st[1][0] == "i", dt[1][0] == "i"
            if db < sb or (db == sb and ssg != dsg and db < 64 and not (ssg and not dsg)):
                return dp(pa(atom("fn", "conv[%s->%s]" % (sn, dn), (x,), nonneg=not dsg, isint=True)))
            if ssg and not dsg:
                w = pa(atom("fn", "wrapcast[%s->%s]" % (sn, dn), (x,), nonneg=True, isint=True))
                return sign_cases(x, dp(w), dnum(0), leaf(x))
            return leaf(x)
        if st[0] == "int" and dt[0] in ("float", "param") or (st[0] == "int" and P.fixed(dst)):
            return leaf(x)
        if st[0] == "float" and dt[0] == "float" and dt[1] == "f64":
            return leaf(x)
        return dp(pa(atom("fn", "conv[%s->%s]" % (sn, dn), (x,), nonneg=P.unsigned(dst), isint=dt[0] == "int")))
    for gx, x in core.leaf_guards(a):
        if isinstance(x, Poly) and x.is_const():
            gx = AND(gx, g)
            if gx is not FALSE:
                I.event("const", gx, how, x.const(), (src, dst))
    return applyn(f, [a])


def quant(I, r, t, op, g):
    """rounding of a constant arithmetic result on a concrete type (convmode 'round')"""
    P = I.P
    ty = P.ty(t)
    fx = P.fixed(t)

    def f(x):
        if not isinstance(x, Poly) or not x.is_const():
            return leaf(x)
        c = x.const()
        if ty[0] == "float":
            return dnum(to_f32(c) if ty[1] == "f32" else Fr(float(c)))
        if fx and fx[2] is not None:
            q = c * 2 ** fx[2]
            i = q.numerator // q.denominator
            if op == "Div" and q < 0 and i != q:
                i += 1
            v = Fr(i, 2 ** fx[2])
            lo, hi = type_range(P, t)
            if not lo <= v <= hi:
                I.event("overflow", g, op, c, t)
            return dnum(v)
        return leaf(x)
    return applyn(f, [r])


def to_f32(c):
    """round a rational to the nearest f32 (ties to even)"""
    if c == 0:
        return Fr(0)
    s = -1 if c < 0 else 1
    c = abs(c)
    e = 0
    n, d = c.numerator, c.denominator
    e = n.bit_length() - d.bit_length() - 24
    q = c / Fr(2) ** e
    while q >= 2 ** 24:
        e += 1
        q = c / Fr(2) ** e
    while q < 2 ** 23:
        e -= 1
        q = c / Fr(2) ** e
    i = q.numerator // q.denominator
    r = q - i
    if r > Fr(1, 2) or (r == Fr(1, 2) and i % 2):
        i += 1
    return s * i * Fr(2) ** e


def deref_num(I, st, v):
    """strip references from a scalar argument"""
    for _ in range(4):
        if isinstance(v, Dg):
            d = v
            while d.c is not None:
                d = d.k[0]
            if isinstance(d.v, tuple) and d.v[0] == "ref":
                v = I.deref(st, v)
                continue
        break
    if not isinstance(v, Dg):
        I.unsup("numeric operand expected")
    return v


def option(g, payload):
    """Option: Some(payload) where g else None"""
    return Enum(ite(g, leaf(1), leaf(0)), {0: UNIT, 1: Agg([payload])})


def ordering(a, b):
    t = n_cmp("lt", a, b)
    e = n_cmp("eq", a, b)
    return Enum(ite(t, leaf(0), ite(e, leaf(1), leaf(2))), {0: UNIT, 1: UNIT, 2: UNIT})


def is_neg(d):
    def f(x):
        if is_sp(x):
            if spv(x) == "nan":
                return outcome(cond("bool", ("signbit", "nan")), 1)
            return TRUE if spv(x) == "-inf" else FALSE
        return sign_cases(x, TRUE, FALSE, FALSE)
    return applyn(f, [d])


def is_pos(d):
    def f(x):
        if is_sp(x):
            if spv(x) == "nan":
                return NOT(outcome(cond("bool", ("signbit", "nan")), 1))
            return TRUE if spv(x) == "+inf" else FALSE
        return sign_cases(x, FALSE, outcome(cond("bool", ("zero_is_positive", x)), 1), TRUE)
    return applyn(f, [d])


ALIAS_PUB = {
    "mixed_num::trigonometry::wrap_phase": "wrap",
    "mixed_num::trigonometry::sin": "sin_poly",
    "mixed_num::trigonometry::cos": "cos_poly",
    "mixed_num::trigonometry::powi": "powi",
    "mixed_num::trigonometry::atan::atan2": "atan2_poly",
    "mixed_num::trigonometry::atan::atan": "atan_poly",
    "mixed_num::trigonometry::sqrt::niirf": "niirf",
}


def call(I, F, callee, args, t, st, g):
    P = I.P
    if "ind" in callee:
        return call_indirect(I, F, callee, args, t, st, g)
    res = callee.get("res")
    path = callee["path"]
    rpath = res["path"] if res else path
    name = callee["name"]
    trait = callee["trait"]
    selfty = callee["self"]
    cargs = [x for x in callee["args"] if isinstance(x, int)]
    if t[0] == "call" and t[4] is None or rpath.startswith("core::panicking::"):
        I.event("panic", g, rpath)
        return None

    def ret(v):
        return v, st, g
    # ---------------- cut points: the public generic algorithms
    if rpath in I.cut:
        return ret(cut_value(I, rpath, args, st))
    if trait is None and rpath in ALIAS_PUB and rpath in I.cut:
        return ret(cut_value(I, rpath, args, st))
    # ---------------- operator traits on numbers
    ps = P.peel(selfty) if selfty is not None else None
    if trait and trait.startswith("core::ops::") and ps is not None and P.numeric(ps) and \
            all(P.numeric(P.peel(x)) for x in cargs):
        isint = P.ty(ps)[0] == "int"
        op = name[:-7] if name.endswith("_assign") else name
        if op in ("add", "sub", "mul", "div", "rem", "neg"):
            x = deref_num(I, st, args[0])
            if op == "neg":
                r = n_neg(x)
                I.event("arith", g, "Neg", r, ps) if not isint else I.event("ineg", g, "negation of the minimum", x, ps)
                return ret(r)
            y = deref_num(I, st, args[1])
            if op in BIN:
                r = BIN[op](x, y)
            elif op == "div":
                if not isint:
                    I.event("div", g, "division", y, ps)
                r = n_idiv(x, y) if isint else n_div(x, y)
            else:
                if not isint:
                    I.event("div", g, "remainder", y, ps)
                r = n_rem(x, y, isint)
            if I.convmode == "round":
                r = quant(I, r, ps, op.capitalize(), g)
            I.event("iarith" if isint else "arith", g, op.capitalize(), r, ps, y)
            if name.endswith("_assign"):
                I.write_ref(st, args[0], r, g)
                return ret(UNIT)
            return ret(r)
    if trait in ("core::cmp::PartialOrd", "core::cmp::PartialEq", "core::cmp::Ord") and ps is not None and \
            (P.numeric(ps) or P.ty(ps)[0] in ("bool", "str")):
        x, y = deref_num(I, st, args[0]), deref_num(I, st, args[1])
        if name in CMPS:
            return ret(n_cmp(name, x, y))
        if name == "partial_cmp":
            nan = applyn(lambda a, b: TRUE if "nan" in (spv(a), spv(b)) else FALSE, [x, y])
            return ret(option(NOT(nan), ordering(x, y)))
        if name == "cmp":
            return ret(ordering(x, y))
        if name in ("max", "min"):
            c = n_cmp("lt", y, x) if name == "max" else n_cmp("lt", y, x)
            return ret(ite(c, x, y) if name == "max" else ite(c, y, x))
        if name == "clamp":
            z = deref_num(I, st, args[2])
            return ret(ite(n_cmp("lt", x, y), y, ite(n_cmp("gt", x, z), z, x)))
    if trait == "core::clone::Clone" and name == "clone":
        if ps is not None and P.numeric(ps) or not (res and res.get("key") is not None and P.raw.get(res["key"])):
            return ret(I.deref(st, args[0]))
    if trait == "core::default::Default" and name == "default" and P.numeric(ps):
        if P.ty(ps)[0] == "param":
            return ret(dp(pa(atom("const", "default", (P.tname(ps),)))))
        return ret(dnum(0))
    if trait in ("core::convert::From", "core::convert::Into") and len(cargs) == 2 and all(P.numeric(x) for x in cargs):
        s, d = (cargs[1], cargs[0]) if name == "from" else (cargs[0], cargs[1])
        return ret(conv(I, deref_num(I, st, args[0]), s, d, g, "from"))
    # ---------------- contracts of the local numeric traits
    if trait and trait.startswith("mixed_num::traits") and ps is not None and P.numeric(ps) and \
            not (name in I.nocontract and res and res.get("key") is not None and P.raw.get(res["key"])):
        r = contract(I, name, args, ps, cargs, st, g, callee)
        if r is not None:
            return ret(r)
        if res is None:
            # complex-valued type parameter: an uninterpreted constructor
            xs = [deref_num(I, st, a) for a in args]
            return ret(n_fn("call:" + name, *xs))
    if trait == "fixed::traits::Fixed" and name == "from_num" and P.numeric(ps):
        return ret(conv(I, deref_num(I, st, args[0]), cargs[1], ps, g, "from_num"))
    if trait == "fixed::traits::Fixed" and name == "to_num" and P.numeric(ps):
        return ret(conv(I, deref_num(I, st, args[0]), ps, cargs[1], g, "to_num"))
    if trait == "fixed::traits::ToFixed" and name == "to_fixed" and P.numeric(ps):
        return ret(conv(I, deref_num(I, st, args[0]), ps, I.place_ty(F, t[3]), g, "to_fixed"))
    if trait == "fixed::traits::FromFixed" and name == "from_fixed" and P.numeric(ps):
        return ret(conv(I, deref_num(I, st, args[0]), P.peel(I.op_ty(F, t[2][0])), ps, g, "from_fixed"))
    if trait == "num::traits::float::FloatCore" or trait == "num::traits::Float" or trait == "num::traits::float::Float":
        if name == "powi":
            return ret(n_powi(deref_num(I, st, args[0]), deref_num(I, st, args[1])))
        if name == "max_value":
            return ret(max_val(I, ps))
        if name == "min_value":
            return ret(min_val(I, ps))
        if name == "abs":
            return ret(n_abs(deref_num(I, st, args[0])))
        if name == "recip":
            I.event("div", g, "reciprocal", deref_num(I, st, args[0]), ps)
            return ret(n_div(dnum(1), deref_num(I, st, args[0])))
        if name in ("is_sign_negative", "is_sign_positive"):
            return ret((is_neg if name.endswith("negative") else is_pos)(deref_num(I, st, args[0])))
    # ---------------- external libraries
    m = re.match(r"^fixed::Fixed([IU])(\d+)::<Frac>::(\w+)$", rpath)
    if m:
        me = m.group(3)
        rt = I.place_ty(F, t[3])
        if me == "from_num":
            src = cargs[-1]
            return ret(conv(I, deref_num(I, st, args[0]), src, rt, g, "from_num"))
        if me == "to_num":
            return ret(conv(I, deref_num(I, st, args[0]), I.op_ty(F, t[2][0]), rt, g, "to_num"))
        if me == "abs":
            return ret(n_abs(deref_num(I, st, args[0])))
        if me == "is_positive":
            x = deref_num(I, st, args[0])
            return ret(n_cmp("gt", x, dnum(0)))
        if me == "is_negative":
            return ret(n_cmp("lt", deref_num(I, st, args[0]), dnum(0)))
        if me == "is_zero":
            return ret(n_cmp("eq", deref_num(I, st, args[0]), dnum(0)))
        if me == "from_bits" and P.fixed(rt) and P.fixed(rt)[2] is not None:
            return ret(n_mul(deref_num(I, st, args[0]), dnum(Fr(1, 2 ** P.fixed(rt)[2]))))
        if me == "to_bits" and P.fixed(P.peel(I.op_ty(F, t[2][0]))) and P.fixed(P.peel(I.op_ty(F, t[2][0])))[2] is not None:
            return ret(n_mul(deref_num(I, st, args[0]), dnum(2 ** P.fixed(P.peel(I.op_ty(F, t[2][0])))[2])))
        if me in ("min", "max"):
            x, y = deref_num(I, st, args[0]), deref_num(I, st, args[1])
            c = n_cmp("lt", y, x)
            return ret(ite(c, x, y) if me == "max" else ite(c, y, x))
    if rpath.startswith("libm::"):
        fn = rpath.split("::")[-1]
        base, ty = (fn[:-1], "f32") if fn.endswith("f") and fn[:-1] in LIBM else (fn, "f64")
        I.external[rpath] = I.external.get(rpath, 0) + 1
        xs = [deref_num(I, st, a) for a in args]
        if base == "sincos":
            return ret(Agg([n_fn("sin@" + ty, *xs), n_fn("cos@" + ty, *xs)]))
        return ret(n_fn(base + "@" + ty, *xs))
    if rpath.startswith("cordic::"):
        fn = rpath.split("::")[-1]
        I.external[rpath] = I.external.get(rpath, 0) + 1
        xs = [deref_num(I, st, a) for a in args]
        if fn == "sin_cos":
            return ret(Agg([n_fn("sin@cordic", *xs), n_fn("cos@cordic", *xs)]))
        return ret(n_fn(fn + "@cordic", *xs))
    m = re.match(r"^(?:mixed_num::)?std::(f32|f64)::<impl f(?:32|64)>::(\w+)$", rpath)
    if m:
        ty, me = m.group(1), {"ln": "log", "powf": "pow"}.get(m.group(2), m.group(2))
        xs = [deref_num(I, st, a) for a in args]
        if me == "powi":
            return ret(n_powi(*xs))
        I.external[rpath] = I.external.get(rpath, 0) + 1
        if me == "sin_cos":
            return ret(Agg([n_fn("sin@" + ty, *xs), n_fn("cos@" + ty, *xs)]))
        if me in LIBM:
            return ret(n_fn(me + "@" + ty, *xs))
    m = re.match(r"^core::(f32|f64)::<impl f(32|64)>::(\w+)$", rpath)
    if m:
        me = m.group(3)
        x = deref_num(I, st, args[0])
        if me == "abs":
            return ret(n_abs(x))
        if me == "is_sign_negative":
            return ret(is_neg(x))
        if me == "is_sign_positive":
            return ret(is_pos(x))
        if me in ("max", "min"):
            y = deref_num(I, st, args[1])
            c = n_cmp("lt", y, x)
            return ret(ite(c, x, y) if me == "max" else ite(c, y, x))
        if me == "is_nan":
            return ret(applyn(lambda v: TRUE if spv(v) == "nan" else FALSE, [x]))
        if me == "is_infinite":
            return ret(applyn(lambda v: TRUE if spv(v) in ("+inf", "-inf") else FALSE, [x]))
        if me == "is_finite":
            return ret(applyn(lambda v: TRUE if not is_sp(v) else FALSE, [x]))
        if me == "recip":
            I.event("div", g, "reciprocal", x)
            return ret(n_div(dnum(1), x))
    m = re.match(r"^core::num::<impl ([iu]\w+)>::(\w+)$", rpath)
    if m:
        me = m.group(2)
        tn = m.group(1)
        x = deref_num(I, st, args[0]) if args else None
        if me == "abs":
            I.event("ineg", g, "absolute value of the minimum", x, I.place_ty(F, t[3]))
            return ret(n_abs(x))
        if me == "unsigned_abs":
            return ret(n_abs(x))
        if me == "abs_diff":
            return ret(n_abs(n_sub(x, deref_num(I, st, args[1]))))
        if me == "pow":
            return ret(n_powi(x, deref_num(I, st, args[1])))
        if me == "signum":
            return ret(I_.n_sign3(x))
        if me == "is_negative":
            return ret(n_cmp("lt", x, dnum(0)))
        if me == "is_positive":
            return ret(n_cmp("gt", x, dnum(0)))
        if me == "saturating_sub" and tn[0] == "u":
            d = n_sub(x, deref_num(I, st, args[1]))
            return ret(applyn(lambda v: sign_cases(v, dnum(0), dnum(0), leaf(v)), [d]))
        if me in ("max_value",):
            return ret(max_val(I, I.place_ty(F, t[3])))
        if me in ("min_value",):
            return ret(min_val(I, I.place_ty(F, t[3])))
    if re.match(r"^core::num::(nonzero::)?NonZero::<T>::(new|get|new_unchecked)$", rpath):
        x = deref_num(I, st, args[0])       # represented by the integer itself
        return ret(option(n_cmp("ne", x, dnum(0)), x) if name == "new" else x)
    # ---------------- iterators
    r = iter_call(I, F, callee, rpath, name, trait, selfty, args, t, st, g)
    if r is not None:
        return ret(r)
    # ---------------- formatting
    if "core::fmt" in rpath or "std::string" in rpath or "alloc::" in rpath or (trait or "").startswith("core::fmt"):
        r = fmt_call(I, F, rpath, name, trait, selfty, args, st, g)
        if r is not None:
            return r if isinstance(r, tuple) else ret(r)
    if rpath in ("core::mem::swap",):
        a, b = I.deref(st, args[0]), I.deref(st, args[1])
        I.write_ref(st, args[0], b, g)
        I.write_ref(st, args[1], a, g)
        return ret(UNIT)
    if rpath in ("core::mem::replace",):
        a = I.deref(st, args[0])
        I.write_ref(st, args[0], args[1], g)
        return ret(a)
    if rpath.startswith("core::hint::") or rpath.endswith("precondition_check") or "intrinsics::cold_path" in rpath:
        return ret(UNIT if not args else (args[0] if rpath.endswith("black_box") else UNIT))
    if rpath.startswith("core::ub_checks") or "intrinsics::ub_checks" in rpath:
        return ret(FALSE)
    # ---------------- inline
    if res and res.get("key") is not None:
        body = P.body(res["key"])
        if body is not None:
            if trait and trait.startswith("core::ops::") and name in ("call", "call_mut", "call_once"):
                args = untuple(I, body, args, st)
            elif body.spread is not None:
                pass
            v, st2 = I.call_body(body, args, st, g)
            return v, st2, I.last_g
    # ---------------- opaque pure external function of scalars
    I.external[rpath] = I.external.get(rpath, 0) + 1
    rt = I.place_ty(F, t[3])
    if P.numeric(rt):
        xs = []
        for o, a in zip(t[2], args):
            ty = P.ty(I.op_ty(F, o))
            if ty[0] == "ref" and ty[1]:
                I.unsup("call of %s with a mutable reference" % rpath)
            xs.append(deref_num(I, st, a))
        if xs:
            return ret(n_fn("ext:%s@%s" % (rpath, P.tname(rt)), *xs))
    if P.ty(rt)[0] == "bool":
        xs = [deref_num(I, st, a) for a in args]
        return ret(applyn(lambda *vs: outcome(cond("bool", ("ext:" + rpath,) + vs), 1), xs))
    I.unsup("call of %s, which is not modelled" % rpath)


def untuple(I, body, args, st):
    env, tup = args[0], args[1]
    lt = I.P.ty(body.locals[1])
    if lt[0] == "ref" and not (isinstance(env, Dg)):
        env = leaf(("ref", I.new_cell(st, env), ()))
    if lt[0] != "ref" and isinstance(env, Dg):
        env = I.deref(st, env)
    return [env] + list(tup.f)


def call_indirect(I, F, callee, args, t, st, g):
    v = I.operand(F, st, callee["ind"])
    if isinstance(v, Dg) and v.c is None and isinstance(v.v, tuple) and v.v[0] == "fn":
        return call_value(I, F, v.v[1], None, args, t, st, g)
    I.unsup("indirect call")


def bodies_of(P, path, want, root=None):
    """keys of the bodies of a function or closure instantiated with these types, those typed in `root`'s environment first"""
    ix = getattr(P, "_by_path", None)
    if ix is None:
        ix = P._by_path = {}
        for k, b in P.raw.items():
            if not b.get("err"):
                ix.setdefault(b["path"], []).append(k)
    ks = [k for k in ix.get(path, ()) if [x for x in P.raw[k]["args"] if isinstance(x, int)] == want]
    return sorted(ks, key=lambda k: P.raw[k].get("root") != root)


def call_value(I, F, fty, cell, args, t, st, g):
    """call of a function item or closure type; the closure's captures are in a cell"""
    P = I.P
    ty = P.ty(fty)
    want = [x for x in ty[2] if isinstance(x, int)]
    ks = bodies_of(P, ty[1], want, P.raw[F.body.key].get("root"))
    if ty[0] == "closure":
        if not ks:
            I.unsup("call of %s, which has no body" % ty[1])
        body = P.body(ks[0])
        env = st[cell] if cell is not None else Agg(())
        if P.ty(body.locals[1])[0] == "ref":
            env = leaf(("ref", cell if cell is not None else I.new_cell(st, env), ()))
        v, st2 = I.call_body(body, [env] + list(args), st, g)
        return v, st2, I.last_g
    if ty[0] != "fndef":
        I.unsup("call of a %s" % ty[0])
    name = ty[1].split("::")[-1]
    trait = ty[1][:-len(name) - 2]
    if trait not in {x["path"] for x in P.traits} and not trait.startswith(("core::ops::", "core::cmp::", "core::clone::")):
        trait = None
    res = {"path": ty[1], "key": ks[0]} if ks else None
    synth = {"path": ty[1], "name": name, "trait": trait, "self": want[0] if trait and want else None, "args": ty[2],
             "res": res, "crate": ty[1].split("::")[0], "unsafe": False}
    if len(t[2]) != len(args):
        t = [t[0], t[1], [["untyped"]] * len(args), t[3], t[4]]
    return call(I, F, synth, list(args), t, st, g)


def cut_value(I, rpath, args, st):
    xs = [deref_num(I, st, a) for a in args]
    n = ALIAS_PUB[rpath]
    if n == "powi":
        return n_powi(xs[0], xs[1])
    return n_fn(n, *xs)


def contract(I, name, args, ps, cargs, st, g, callee):
    P = I.P
    if name == "mixed_from_num":
        if not P.numeric(cargs[1]):
            return None
        return conv(I, deref_num(I, st, args[0]), cargs[1], ps, g, "mixed_from_num")
    if name == "mixed_to_num":
        if not P.numeric(cargs[1]):
            return None
        return conv(I, deref_num(I, st, args[0]), ps, cargs[1], g, "mixed_to_num")
    if name == "mixed_zero":
        return dnum(0)
    if name == "mixed_one":
        return dnum(1)
    if name == "mixed_pi":
        I.event("const", g, "mixed_pi", I_.PI_DEC, (None, ps))
        return dp(PIP)
    if name == "mixed_tau":
        I.event("const", g, "mixed_tau", 2 * I_.PI_DEC, (None, ps))
        return dp(PIP.scale(2))
    if name == "mixed_max_value":
        return max_val(I, ps)
    if name == "mixed_min_value":
        return min_val(I, ps)
    if name == "mixed_powi":
        return n_powi(deref_num(I, st, args[0]), deref_num(I, st, args[1]), P.ty(ps)[0] == "int")
    if name == "mixed_niirf":
        return n_fn("niirf", deref_num(I, st, args[0]), dnum(2))
    if name == "mixed_abs" and I.wrapping_abs:
        return deref_num(I, st, args[0])
    if name == "mixed_abs":
        return n_abs(deref_num(I, st, args[0]))
    if name == "mixed_sign":
        return applyn(lambda x: sign_cases(x, dnum(-1), dnum(1), dnum(1)), [deref_num(I, st, args[0])])
    if name == "mixed_is_positive":
        return is_pos(deref_num(I, st, args[0]))
    if name == "mixed_is_negative":
        return is_neg(deref_num(I, st, args[0]))
    if name == "mixed_sincos":
        x = deref_num(I, st, args[0])
        return Agg([n_fn("sin", x), n_fn("cos", x)])
    if name in FN1:
        return n_fn(FN1[name], deref_num(I, st, args[0]))
    if name in FN2:
        return n_fn(FN2[name], deref_num(I, st, args[0]), deref_num(I, st, args[1]))
    return None


# ------------------------------------------------------------------ iterators
def adt_path(P, t):
    if t is None:
        return ""
    t = P.peel(t)
    ty = P.ty(t)
    return ty[1] if ty[0] == "adt" else ""


def iter_call(I, F, callee, rpath, name, trait, selfty, args, t, st, g):
    P = I.P
    sp_ = adt_path(P, selfty)
    if trait == "core::iter::IntoIterator" and name == "into_iter":
        if rpath.startswith("<I as"):
            return args[0]
        ty = P.ty(selfty)
        if ty[0] == "ref" and P.ty(ty[2])[0] in ("array", "slice"):
            return slice_iter(I, st, args[0])
        if ty[0] == "array":
            c = I.new_cell(st, args[0])
            it = slice_iter(I, st, leaf(("ref", c, ())))
            return Agg(it.f + (leaf("byval"),))
    if rpath.endswith("RangeInclusive::<Idx>::new"):
        return Agg([args[0], n_add(args[1], dnum(1)), leaf("incl")])
    if name in ("iter", "iter_mut", "into_iter") and ("slice::<impl [T]>" in rpath or "array::<impl [T; N]>" in rpath):
        return slice_iter(I, st, args[0])
    if name in ("repeat_n", "repeat") and "core::iter::" in rpath and isinstance(args[0], Dg):
        return Agg([args[0], args[1], leaf("repn")] if name == "repeat_n" else [args[0], leaf("repeat")])
    if name == "take" and trait == "core::iter::Iterator" and isinstance(args[0], Agg) and len(args[0].f) == 2 and is_tag(args[0].f[1], "repeat"):
        return Agg([args[0].f[0], args[1], leaf("repn")])
    if name == "step_by" and trait == "core::iter::Iterator":
        xs = known_range(args[0])
        k = args[1]
        if xs is not None and isinstance(k, Dg) and k.c is None and isinstance(k.v, Poly) and k.v.is_const() and k.v.const() > 0:
            return Agg(slice_iter(I, st, leaf(("ref", I.new_cell(st, Agg([dnum(x) for x in xs[::int(k.v.const())]])), ()))).f + (leaf("byval"),))
    if name in ("windows", "chunks", "chunks_exact") and "slice::<impl [T]>" in rpath:
        v, k = I.deref(st, args[0]), args[1]
        if isinstance(v, Agg) and isinstance(k, Dg) and k.c is None and isinstance(k.v, Poly) and k.v.is_const() and k.v.const() > 0:
            k, n = int(k.v.const()), len(v.f)
            starts = range(0, n - k + 1) if name == "windows" else range(0, n, k) if name == "chunks" else range(0, n - n % k, k)
            parts = [leaf(("ref", I.new_cell(st, Agg(v.f[i:i + k])), ())) for i in starts]
            return Agg(slice_iter(I, st, leaf(("ref", I.new_cell(st, Agg(parts)), ()))).f + (leaf("byval"),))
    if name == "map" and "array::<impl [T; N]>" in rpath and isinstance(args[0], Agg):
        cell = I.new_cell(st, args[1])
        return Agg([call_fn(I, F, I.op_ty(F, t[2][1]), cell, [x], t, st, g, TRUE) for x in args[0].f])
    if name == "from_fn" and "core::array::" in rpath:
        n = P.ty(I.place_ty(F, t[3]))
        n = n[2] if n[0] == "array" and isinstance(n[2], int) else None
        if n is not None and n <= 4096:
            cell = I.new_cell(st, args[0])
            return Agg([call_fn(I, F, I.op_ty(F, t[2][0]), cell, [dnum(i)], t, st, g, TRUE) for i in range(n)])
    if name == "get" and "slice::<impl [T]>" in rpath:
        v, i = I.deref(st, args[0]), args[1]
        if isinstance(v, Agg) and isinstance(i, Dg) and i.c is None and isinstance(i.v, Poly) and i.v.is_const():
            k = int(i.v.const())
            ok = 0 <= k < len(v.f)
            return option(TRUE if ok else FALSE, part(args[0], k) if ok else UNDEF)
        b = slice_bounds(P, I.op_ty(F, t[2][1]), i, len(v.f)) if isinstance(v, Agg) else None
        if b is not None:
            ok = 0 <= b[0] <= b[1] <= len(v.f)
            return option(TRUE if ok else FALSE, part(args[0], ("sub",) + b) if ok else UNDEF)
    if trait in ("core::ops::Index", "core::ops::IndexMut") and name in ("index", "index_mut") and len(args) == 2 and \
            isinstance(args[0], Dg) and P.ty(P.peel(selfty))[0] in ("array", "slice"):
        v = I.deref(st, args[0])
        b = slice_bounds(P, I.op_ty(F, t[2][1]), args[1], len(v.f)) if isinstance(v, Agg) else None
        if b is not None and 0 <= b[0] <= b[1] <= len(v.f):
            return part(args[0], ("sub",) + b)
    if "slice::<impl [T]>" in rpath and args and isinstance(args[0], Dg) and \
            name in ("first", "last", "split_first", "split_last", "split_at", "first_mut", "last_mut", "split_at_mut", "as_slice", "get_mut"):
        v = I.deref(st, args[0])
        if isinstance(v, Agg):
            n = len(v.f)
            if name in ("first", "last", "first_mut", "last_mut"):
                return option(TRUE if n else FALSE, part(args[0], 0 if name.startswith("first") else n - 1) if n else UNDEF)
            if name == "split_first":
                return option(TRUE if n else FALSE, Agg([part(args[0], 0), part(args[0], ("sub", 1, n))]) if n else UNDEF)
            if name == "split_last":
                return option(TRUE if n else FALSE, Agg([part(args[0], n - 1), part(args[0], ("sub", 0, n - 1))]) if n else UNDEF)
            k = known_int(args[1]) if len(args) > 1 else None
            if name in ("split_at", "split_at_mut") and k is not None and 0 <= k <= n:
                return Agg([part(args[0], ("sub", 0, k)), part(args[0], ("sub", k, n))])
            if name == "get_mut" and k is not None:
                ok = 0 <= k < n
                return option(TRUE if ok else FALSE, part(args[0], k) if ok else UNDEF)
    if name == "partition_point" and "slice::<impl [T]>" in rpath:
        return partition_point(I, F, args, t, st, g)
    if name == "contains" and "slice::<impl [T]>" in rpath:
        v, x = I.deref(st, args[0]), I.deref(st, args[1])
        if isinstance(v, Agg) and all(isinstance(y, Dg) for y in v.f + (x,)):
            r = FALSE
            for y in v.f:
                r = OR(r, n_cmp("eq", y, x))
            return r
    if name == "len" and trait == "core::iter::ExactSizeIterator" and args:
        it = args[0] if isinstance(args[0], Agg) else I.deref(st, args[0])
        n = own_len(it)
        if n is not None:
            return n
    if name == "len" and "slice::<impl [T]>" in rpath:
        v = I.deref(st, args[0])
        if isinstance(v, Agg):
            return dnum(len(v.f))
    if trait in ("core::iter::Iterator", "core::iter::DoubleEndedIterator"):
        if name == "rev":
            return Agg([args[0], leaf("rev")])
        if name in ("next", "next_back"):
            r = args[0]
            it = I.deref(st, r)
            x = iter_next(I, st, it, name == "next_back", P, selfty)
            if x is None:
                return None
            it2, item = x
            I.write_ref(st, r, it2, g)
            return item
        if name == "zip" and len(args) == 2 and isinstance(args[0], Agg):
            b = args[1]
            if isinstance(b, Dg):
                b = slice_iter(I, st, b)
            elif isinstance(b, Agg) and P.ty(I.op_ty(F, t[2][1]))[0] == "array":
                c = I.new_cell(st, b)
                b = Agg(slice_iter(I, st, leaf(("ref", c, ()))).f + (leaf("byval"),))
            if own_iter(args[0]) and own_iter(b):
                return Agg([args[0], b, leaf("zip")])
        it = args[0] if args else None
        byref = isinstance(it, Dg)
        if byref:
            it = I.deref(st, it)
        if own_iter(it) and name in CONSUMERS:
            return consume(I, F, name, it, args, byref, t, st, g)
    return None


def part(ref, k):
    return applyn(lambda r: leaf(("ref", r[1], step(r[2], k))), [ref])


def known_int(x):
    if isinstance(x, Dg) and x.c is None and isinstance(x.v, Poly) and x.v.is_const():
        return int(x.v.const())
    return None


def slice_bounds(P, ty, x, n):
    """(from, to) of a range used as an index, when its ends are known"""
    path = adt_path(P, ty).rsplit("::", 1)[-1]
    if path == "RangeFull":
        return 0, n
    if not isinstance(x, Agg):
        return None
    f = [known_int(y) for y in x.f]
    if path == "Range" and len(f) == 2 and None not in f:
        return tuple(f)
    if path == "RangeFrom" and f and f[0] is not None:
        return f[0], n
    if path == "RangeTo" and f and f[0] is not None:
        return 0, f[0]
    if path == "RangeToInclusive" and f and f[0] is not None:
        return 0, f[0] + 1
    if path == "RangeInclusive" and len(f) >= 2 and f[0] is not None and f[1] is not None and is_tag(x.f[2], "incl"):
        return f[0], f[1]
    return None


def known_range(it):
    """the elements of an integer range with known ends, possibly reversed"""
    if not isinstance(it, Agg):
        return None
    f = it.f
    if len(f) == 2 and is_tag(f[1], "rev"):
        xs = known_range(f[0])
        return None if xs is None else xs[::-1]
    if len(f) == 2 or (len(f) == 3 and is_tag(f[2], "incl")):
        if all(isinstance(x, Dg) and x.c is None and isinstance(x.v, Poly) and x.v.is_const() for x in f[:2]):
            a, b = (x.v.const() for x in f[:2])
            if a == int(a) and b == int(b) and b - a <= 4096:
                return list(range(int(a), int(b)))
    return None


CONSUMERS = {"fold", "rfold", "for_each", "any", "all", "find", "position", "count", "last", "nth", "try_fold", "size_hint"}


def own_iter(it):
    """an iterator over a slice or array of known length, possibly reversed or zipped"""
    if not isinstance(it, Agg):
        return False
    f = it.f
    if len(f) == 2 and is_tag(f[1], "rev"):
        return own_iter(f[0])
    if len(f) == 3 and is_tag(f[2], "zip"):
        return own_iter(f[0]) and own_iter(f[1])
    return len(f) >= 4 and is_tag(f[3], "slice")


def own_len(it):
    if not own_iter(it):
        return None
    f = it.f
    if is_tag(f[-1], "rev"):
        return own_len(f[0])
    if is_tag(f[-1], "zip"):
        a, b = own_len(f[0]), own_len(f[1])
        return ite(n_cmp("lt", a, b), a, b)
    return n_sub(f[2], f[1])


def consume(I, F, name, it, args, byref, t, st, g):
    """a consuming method on an iterator of known length, element by element"""
    P = I.P
    if name == "size_hint":
        n = own_len(it)
        return Agg([n, option(TRUE, n)])
    if name == "try_fold":
        return try_fold(I, F, it, args, byref, t, st, g)
    left = TRUE             # the elements are still being consumed
    acc = args[1] if name in ("fold", "rfold") else None
    fn = args[2] if name in ("fold", "rfold") else args[1] if len(args) > 1 else None
    fty = I.op_ty(F, t[2][-1])
    res = {"any": FALSE, "all": TRUE}.get(name)
    opt = option(FALSE, UNDEF)
    if name == "nth":
        if not (fn.c is None and fn.v.is_const()):
            I.unsup("symbolic position in an iterator")
        for _ in range(int(fn.v.const())):
            it, _x = iter_next(I, st, it, False, P, None)
        it, item = iter_next(I, st, it, False, P, None)
        I.write_ref(st, args[0], it, g)
        return item
    n = 0
    cell = I.new_cell(st, fn) if fn is not None else None
    while True:
        it2, item = iter_next(I, st, it, name == "rfold", P, None)
        if item.tag.c is not None:
            I.unsup("iterator of symbolic length")
        it = it2
        if item.tag.v == 0:
            break
        x = item.vs[1].f[0]
        gg = AND(g, left)
        if gg is FALSE or not I.feasible(gg):
            break
        if name == "count":
            n += 1
            continue
        if name == "last":
            opt = item
            continue
        if name == "find":
            xr = leaf(("ref", I.new_cell(st, x), ()))
            r = call_fn(I, F, fty, cell, [xr], t, st, gg, left)
        elif name in ("fold", "rfold"):
            r = call_fn(I, F, fty, cell, [acc, x], t, st, gg, left)
        else:
            r = call_fn(I, F, fty, cell, [x], t, st, gg, left)
        if name in ("fold", "rfold"):
            acc = r
        elif name == "any":
            res = OR(res, AND(left, r))
            left = AND(left, NOT(r))
        elif name == "all":
            res = AND(res, OR(NOT(left), r))
            left = AND(left, r)
        elif name in ("find", "position"):
            hit = AND(left, r)
            y = x if name == "find" else dnum(n)
            old = opt.vs[1].f[0]
            opt = option(OR(opt_some(opt), hit), y if old is UNDEF else vite(hit, y, old))
            left = AND(left, NOT(r))
        n += 1
    if byref:
        # where it stands after an early exit depends on the data: any further use is undecided
        I.write_ref(st, args[0], it if left is TRUE else leaf("spent iterator"), g)
    if name in ("fold", "rfold"):
        return acc
    if name == "for_each":
        return UNIT
    if name == "count":
        return dnum(n)
    if name in ("find", "position", "last"):
        return opt
    return res


def try_fold(I, F, it, args, byref, t, st, g):
    P = I.P
    fty, rt = I.op_ty(F, t[2][-1]), I.place_ty(F, t[3])
    how = adt_path(P, rt).split("::")[-1]
    if how not in ("ControlFlow", "Option", "Result"):
        I.unsup("try_fold into %s" % P.tname(rt))
    go = 1 if how == "Option" else 0
    acc, out, left = args[1], None, TRUE
    cell = I.new_cell(st, args[2])
    while True:
        it2, item = iter_next(I, st, it, False, P, None)
        if item.tag.c is not None:
            I.unsup("iterator of symbolic length")
        it = it2
        gg = AND(g, left)
        if item.tag.v == 0 or gg is FALSE or not I.feasible(gg):
            break
        r = call_fn(I, F, fty, cell, [acc, item.vs[1].f[0]], t, st, gg, left)
        if not isinstance(r, Enum):
            I.unsup("try_fold of an opaque step")
        on = applyn(lambda v: TRUE if v == go else FALSE, [r.tag])
        stop = AND(left, NOT(on))
        if stop is not FALSE:
            out = r if out is None else vite(stop, r, out)
        if on is FALSE:
            left = FALSE
            break
        acc = r.vs[go].f[0]
        left = AND(left, on)
    if byref:
        I.write_ref(st, args[0], it if left is TRUE else leaf("spent iterator"), g)
    done = Enum(leaf(go), {go: Agg([acc])})
    if out is None or left is TRUE:
        return done
    return out if left is FALSE else vite(left, done, out)


def partition_point(I, F, args, t, st, g):
    """the number of leading elements the predicate holds of; what a binary search returns when the slice is
    partitioned, which is shown here"""
    v = I.deref(st, args[0])
    if not isinstance(v, Agg):
        I.unsup("partition_point of an opaque slice")
    cell, fty = I.new_cell(st, args[1]), I.op_ty(F, t[2][-1])
    before, n, ps = TRUE, dnum(0), []
    for i in range(len(v.f)):
        x = part(args[0], i)
        p = call_fn(I, F, fty, cell, [x], t, st, g, TRUE)
        if any(I.feasible(AND(AND(g, p), NOT(q))) for q in ps):
            I.unsup("partition_point of a slice that is not shown to be partitioned")
        ps.append(p)
        before = AND(before, p)
        n = ite(before, dnum(i + 1), n)
    return n


def opt_some(o):
    return applyn(lambda t: TRUE if t == 1 else FALSE, [o.tag])


def call_fn(I, F, fty, cell, xs, t, st, gg, left):
    """call the closure held in a cell under guard gg; its effects are merged into st"""
    P = I.P
    ty = P.ty(fty)
    while ty[0] == "ref":
        fty = ty[2]
        ty = P.ty(fty)
        v = st[cell]
        if not (isinstance(v, Dg) and v.c is None and v.v[0] == "ref"):
            I.unsup("call through a gated reference")
        if v.v[2]:
            cell = I.new_cell(st, I.deref(st, v))
        else:
            cell = v.v[1]
    if ty[0] == "fnptr":
        v = st[cell]
        if not (isinstance(v, Dg) and v.c is None and v.v[0] == "fn"):
            I.unsup("indirect call")
        fty = v.v[1]
        cell = None
    r = call_value(I, F, fty, cell, xs, t, st, gg)
    if r is None:
        I.unsup("a closure that may not return")
    v, st2, lg = r
    I.last_g = lg
    if I.last_g is not gg:
        if I.feasible(AND(gg, NOT(I.last_g))):
            I.unsup("a closure that may not return")
    for c, x in st2.items():
        old = st.get(c, UNDEF)
        if x is not old:
            st[c] = x if left is TRUE or old is UNDEF else vite(left, x, old)
    return v


def slice_iter(I, st, ref):
    v = I.deref(st, ref)
    if not isinstance(v, Agg):
        I.unsup("iteration over an opaque slice")
    return Agg([ref, dnum(0), dnum(len(v.f)), leaf("slice")])


def is_tag(v, s):
    return isinstance(v, Dg) and v.c is None and v.v == s


def iter_next(I, st, it, back, P, selfty):
    """(iterator after, Option item)"""
    if not isinstance(it, Agg):
        return None
    f = it.f
    if len(f) == 2 and is_tag(f[1], "rev"):
        r = iter_next(I, st, f[0], not back, P, None)
        return None if r is None else (Agg([r[0], f[1]]), r[1])
    if len(f) == 3 and is_tag(f[2], "zip"):
        if back:
            return None
        a, b = iter_next(I, st, f[0], False, P, None), iter_next(I, st, f[1], False, P, None)
        more = AND(opt_some(a[1]), opt_some(b[1]))
        pair = Agg([a[1].vs[1].f[0], b[1].vs[1].f[0]])
        return Agg([a[0], b[0], f[2]]), option(more, pair)
    if len(f) == 3 and is_tag(f[2], "repn"):
        more = n_cmp("lt", dnum(0), f[1])
        return Agg([f[0], ite(more, n_sub(f[1], dnum(1)), f[1]), f[2]]), option(more, f[0])
    if len(f) == 2 and is_tag(f[1], "repeat"):
        return it, option(TRUE, f[0])
    if len(f) >= 4 and is_tag(f[3], "slice"):
        ref, i, n = f[:3]
        more = n_cmp("lt", i, n)
        pos = n_sub(n, dnum(1)) if back else i

        def el(r, k):
            if not k.is_const():
                I.unsup("symbolic slice position")
            return leaf(("ref", r[1], step(r[2], int(k.const()))))
        itm = applyn(el, [ref, pos])
        if len(f) == 5:
            itm = I.deref(st, itm) if more is not FALSE else UNDEF
        n2 = (ref, i, ite(more, pos, n)) if back else (ref, ite(more, n_add(i, dnum(1)), i), n)
        return Agg(n2 + f[3:]), option(more, itm)
    if (len(f) == 2 or (len(f) == 3 and is_tag(f[2], "incl"))) and all(isinstance(x, Dg) for x in f[:2]) and \
            (selfty is None or "ops::Range" in adt_path(P, selfty) or "range::Range" in adt_path(P, selfty)):
        a, b = f[:2]
        more = n_cmp("lt", a, b)
        if back:
            b2 = ite(more, n_sub(b, dnum(1)), b)
            return Agg((a, b2) + f[2:]), option(more, n_sub(b, dnum(1)))
        a2 = ite(more, n_add(a, dnum(1)), a)
        return Agg((a2, b) + f[2:]), option(more, a)
    return None


# ------------------------------------------------------------------ formatting
LOG = ("fmtlog",)
FAILS = ("fmtfail",)


def fcond(name):
    return outcome(cond("bool", ("fmt", name)), 1)


def parse_template(b):
    """Format template bytes -> list of ('lit', str) | ('arg', index, flags, width, prec); width/prec: None | ('imm', n) | ('arg', n)"""
    out = []
    i = 0
    nxt = 0
    b = list(b)
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(("lit", bytes(b[i:i + x]).decode("utf8", "replace")))
            i += x
        elif x == 0x80:
            n = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(("lit", bytes(b[i:i + n]).decode("utf8", "replace")))
            i += n
        else:
            fl, w, p, idx = None, None, None, nxt
            if x & 1:
                fl = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if x & 2:
                w = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
                w = ("arg", w) if x & 16 else ("imm", w)
            if x & 4:
                p = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
                p = ("arg", p) if x & 32 else ("imm", p)
            if x & 8:
                idx = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
            nxt = idx + 1
            out.append(("arg", idx, fl, w, p))
    return out


def cat(a, b):
    """concatenate two segment tuples, merging literals"""
    out = list(a)
    for s in b:
        if s[0] == "lit" and not s[1]:
            continue
        if s[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + s[1])
        else:
            out.append(s)
    return tuple(out)


def expand(I, fa):
    """('fargs', template, args) payload -> diagram of segment tuples"""
    if not (isinstance(fa, tuple) and fa and fa[0] == "fargs"):
        I.unsup("format arguments %r" % (fa,))
    acc = leaf(())
    args = fa[2]
    for s in parse_template(fa[1]):
        if s[0] == "lit":
            acc = applyn(lambda a: leaf(cat(a, (s,))), [acc])
            continue
        _, idx, fl, w, p = s
        arg = args[idx]           # (trait, Dg)

        def count(c):
            if c is None:
                return leaf(None)
            if c[0] == "imm":
                return dnum(c[1])
            return args[c[1]][1]
        wd, pd = count(w), count(p)

        def f(a, v, wv, pv):
            if isinstance(v, tuple) and v and v[0] == "fargs":
                inner = expand(I, v)
                return applyn(lambda x: leaf(cat(a, x)), [inner])
            if isinstance(v, tuple) and v and v[0] == "out":
                if wv is None and pv is None:
                    return leaf(cat(a, v[1]))
                return leaf(cat(a, (("padded", v[1], fl, wv, pv),)))
            plain = wv is None and pv is None and arg[0] == "Display"
            if isinstance(v, tuple) and v and v[0] == "str" and plain:
                return leaf(cat(a, (("lit", v[1]),)))
            if isinstance(v, tuple) and v and v[0] == "char" and plain:
                return leaf(cat(a, (("lit", v[1]),)))
            if isinstance(v, bool):
                return leaf(cat(a, (("lit", "true" if v else "false"),)))
            return leaf(cat(a, (("val", arg[0], v, fl, wv, pv),)))
        acc = applyn(f, [acc, arg[1], wd, pd])
    return acc


def do_write(I, segs, st, g):
    """append segs (diagram of segment tuples) to the output; returns the fmt::Result"""
    failed = st.get(FAILS, FALSE)
    log = st.get(LOG, leaf(()))
    k = cond("bool", ("fmt", "write_fails", I.loc, len([1 for e in I.events if e.kind == "write"])))
    I.event("write", g, "write")
    bad = outcome(k, 1)
    st[LOG] = applyn(lambda a, b: leaf(cat(a, b)), [log, segs])
    st[FAILS] = OR(failed, bad)
    return Enum(ite(bad, leaf(1), leaf(0)), {0: Agg([UNIT]), 1: Agg([UNIT])})


FMT_TRAIT = {"new_display": "Display", "new_lower_exp": "LowerExp", "new_upper_exp": "UpperExp",
             "new_lower_hex": "LowerHex", "new_upper_hex": "UpperHex", "new_octal": "Octal", "new_binary": "Binary",
             "new_debug": "Debug"}


def fmt_call(I, F, rpath, name, trait, selfty, args, st, g):
    if name in FMT_TRAIT and "Argument" in rpath:
        v = I.deref(st, args[0])
        for _ in range(3):
            if isinstance(v, Dg):
                d = v
                while d.c is not None:
                    d = d.k[0]
                if isinstance(d.v, tuple) and d.v[0] == "ref":
                    v = I.deref(st, v)
                    continue
            break
        if not isinstance(v, Dg):
            I.unsup("formatting of an aggregate")
        return leaf(("farg", FMT_TRAIT[name], v))
    if name == "from_usize" and "Argument" in rpath:
        return leaf(("farg", "usize", I.deref(st, args[0])))
    if rpath.startswith("core::fmt::Arguments") and name in ("new", "new_v1", "new_const"):
        tpl = I.deref(st, args[0])
        arr = I.deref(st, args[1]) if len(args) > 1 else Agg(())
        tb = tpl.v[1] if isinstance(tpl, Dg) else tuple(int(x.v.const()) for x in tpl.f)
        xs = []
        for x in arr.f:
            if x.c is not None:
                I.unsup("gated format argument")
            xs.append((x.v[1], x.v[2]))
        return leaf(("fargs", tuple(tb), tuple(xs)))
    if rpath.startswith("core::fmt::Arguments") and name in ("from_str", "from_str_nonconst"):
        v = args[0]
        return applyn(lambda s: leaf(("fargs", tuple([0xC0, 0]), (("Display", leaf(s)),))), [v])
    if "Formatter" in rpath or (trait or "") == "core::fmt::Write":
        if name == "write_fmt":
            segs = applyn(lambda a: expand(I, a), [args[1]])
            return do_write(I, segs, st, g)
        if name == "write_str":
            v = args[1]
            return do_write(I, applyn(lambda s: leaf(cat((), (("lit", s[1]),))), [v]), st, g)
        if name == "write_char":
            return do_write(I, applyn(lambda s: leaf((("lit", s[1]),)), [args[1]]), st, g)
        if name in ("alternate", "sign_plus", "sign_minus", "sign_aware_zero_pad"):
            return fcond(name)
        if name in ("precision", "width"):
            return option(fcond("has_" + name), dp(pa(atom("var", "f." + name, (), nonneg=True, isint=True))))
        if name == "pad":
            v = args[1]
            return do_write(I, applyn(lambda s: leaf((("padstr", s[1]),)), [v]), st, g)
    if trait and trait.startswith("core::fmt::") and name == "fmt":
        d = I.deref(st, args[0])
        tr = trait.split("::")[-1]
        if isinstance(d, Dg):
            if tr == "Display":
                def f(v):
                    if isinstance(v, tuple) and v and v[0] == "fargs":
                        return expand(I, v)
                    return leaf((("inherit", tr, v),))
            else:
                def f(v):
                    return leaf((("inherit", tr, v),))
            return do_write(I, applyn(f, [d]), st, g)
    if name == "write" and rpath == "core::fmt::write":
        segs = applyn(lambda a: expand(I, a), [args[1]])
        return do_write(I, segs, st, g)
    if name == "to_string":
        v = I.deref(st, args[0])
        if isinstance(v, Dg):
            return applyn(lambda a: applyn(lambda s: leaf(("out", s)), [expand(I, a)]), [v])
    if rpath == "core::fmt::rt::Argument::<'_>::none" or name == "none":
        return Agg(())
    return None
