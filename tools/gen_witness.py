"""One-off generator of witness/src/lib.rs (committed): every capability the analysed tree offered when the property was
written, as Rust items that compile exactly when the capability is there.  usage: gen_witness.py DUMP.json"""
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "engine"))
import mir
from checks_types import kind
from checks_complex import form

P = mir.Program(sys.argv[1])
out = []
VIS = {}
for vis, item in P.exports:
    if item not in VIS or len(vis) < len(VIS[item]):
        VIS[item] = vis


def path(p):
    """a public path of the item, the shortest one exported"""
    return VIS.get(p, p)


def rt(t, life="'a"):
    """Rust syntax of a dumped type"""
    ty = P.ty(t)
    if ty[0] == "ref":
        return "&%s %s%s" % (life, "mut " if "mut" in P.tname(t)[:5] else "", rt(ty[2]))
    n = P.tname(t)
    n = n.replace("Complex<", "num::Complex<")
    return n


def bounds(preds):
    """{param: [bounds]} and extra where clauses"""
    b = {}
    for p in preds:
        if p[0] == "proj":
            m = re.match(r"<(\w+) as (.*)>::Output == (\w+)", p[1])
            b.setdefault(m.group(1), []).append("%s<Output = %s>" % (m.group(2), m.group(3)))
            continue
        tr, args = p[1], p[2]
        if tr == "core::marker::Sized":
            continue
        n = P.tname(args[0])
        rest = [rt(a) for a in args[1:] if True]
        if tr in ("core::cmp::PartialOrd", "core::cmp::PartialEq"):
            rest = [x for x in rest if x != n]
        b.setdefault(n, []).append("%s%s" % (path(tr), "<%s>" % ", ".join(rest) if rest else ""))
    return b


def generics(params, b, life):
    bb = {p: b.get(p, []) + (["'a"] if life else []) for p in params}
    xs = (["'a"] if life else []) + ["%s%s" % (p, ": " + " + ".join(bb[p]) if bb[p] else "") for p in params]
    return "<%s>" % ", ".join(xs) if xs else ""


helpers = {}


def need(tr, args, output=None):
    """call proving that args[0]: tr<args[1:]>"""
    n = re.sub(r"\W", "_", tr.split("::")[-1]) + str(len(args)) + ("o" if output else "")
    ps = ["S"] + ["A%d" % i for i in range(len(args) - 1)] + (["O"] if output else [])
    inner = ps[1:len(args)] + (["Output = O"] if output else [])
    helpers[n] = "fn need_%s<S: %s%s%s>() {}" % (n, tr, "<%s>" % ", ".join(inner) if inner else "",
                                               "".join(", " + x for x in ps[1:]))
    return "need_%s::<%s>();" % (n, ", ".join(list(args) + ([output] if output else [])))


def line(name, code):
    assert "\n" not in code
    out.append("%s // @ %s" % (code, name))


# 1. the traits: supertraits and method signatures
src = "".join(open(os.path.join("/repo/src", f)).read() for f in ("traits.rs", "traits/math_traits.rs", "traits/complex_traits.rs"))
src = re.sub(r"//[^\n]*", "", src)
METHODS = {}
for m in re.finditer(r"pub trait (\w+)(<\w+>)?", src):
    body = src[m.end():]
    nxt = re.search(r"pub trait", body)
    body = body[:nxt.start()] if nxt else body
    METHODS[m.group(1)] = re.findall(r"fn (\w+)\s*\(([^)]*)\)\s*->\s*([^;{]*?)(?: where [^;]*)?;", body)
n = 0
for t in P.traits:
    tr = path(t["path"])
    short = tr.split("::")[-1]
    self_t = None
    for p in t["preds"]:
        if p[0] == "trait" and p[1] == t["path"]:
            self_t = p[2]
    extra = [P.tname(a) for a in self_t[1:]]
    sig = "%s%s" % (tr, "<%s>" % ", ".join(extra) if extra else "")
    gen = "<S: %s%s>" % (sig, "".join(", " + e for e in extra))
    calls = []
    for p in t["preds"]:
        if p[0] != "trait" or p[1] in (t["path"], "core::marker::Sized", "core::marker::MetaSized"):
            continue
        a = ["S" if P.tname(x) == "Self" else P.tname(x) for x in p[2]]
        if p[1] == "num::traits::NumOps":
            for o in ("Add", "Sub", "Mul", "Div", "Rem"):
                calls.append(need("core::ops::" + o, ["S", "S"], "S"))
            continue
        if p[1].startswith("core::cmp"):
            a = a[:1]
        if p[1] == "core::ops::Neg":
            calls.append(need(p[1], a, "S"))
            continue
        calls.append(need(path(p[1]), a))
    if calls:
        line("supertraits of %s" % short, "fn s%d%s() { %s }" % (n, gen, " ".join(calls)))
        n += 1
    for name, args, ret in METHODS.get(short, []):
        a = []
        for x in args.split(","):
            x = x.strip()
            if not x:
                continue
            a.append("&S" if x == "&self" else "S" if x == "self" else x.split(":")[1].strip().replace("Self", "S"))
        line("method %s::%s" % (short, name), "fn s%d%s() { let _: fn(%s) -> %s = <S as %s>::%s; }" %
             (n, gen, ", ".join(a), ret.strip().replace("Self", "S"), sig, name))
        n += 1

# 2. generic impls on the complex forms
wit = []
n = 0
for i in P.impls:
    if i["trait"] in (None, "core::marker::StructuralPartialEq") or not isinstance(i["args"][0], int):
        continue
    if form(P, i["args"][0]) not in ("C", "P"):
        continue
    args = i["args"]
    b = bounds(i["preds"])
    params = sorted(set(re.findall(r"\bT\d?\b", " ".join(rt(a) for a in args))) | {k for k in b if re.match(r"^T\d?$", k)})
    self_ = rt(args[0])
    life = any(P.ty(a)[0] == "ref" for a in args)
    tr = path(i["trait"])
    rest = [rt(a) for a in args[1:]]
    if tr.split("::")[-1] in ("PartialEq", "PartialOrd"):
        rest = [x for x in rest if x != self_]
    o = None
    if tr.startswith("core::ops::") and not tr.endswith("Assign"):
        o = self_
    name = "%s%s for %s" % (tr.split("::")[-1], "<%s>" % ", ".join(rest) if rest else "", self_)
    line("generic impl " + name, "fn g%d%s() { %s }" % (n, generics(params, b, life), need(tr, [self_] + rest, o)))
    wit.append(("g%d" % n, params, b, name, life))
    n += 1

# 3. free functions and constructors, under exactly their bounds
for f in P.fns:
    if not f["exported"] or f["kind"] not in ("free", "inherent") or f["nested"]:
        continue
    b = bounds(f["preds"])
    params = [P.tname(x) for x in f["generics"]] or sorted(b)
    if f["kind"] == "inherent":
        p = "%s::%s" % (rt(f["self"]).replace("<T>", "::<T>"), f["name"])
        params = ["T"]
    elif f["path"] not in VIS:
        sys.stderr.write("not reachable: %s\n" % f["path"])
        continue
    else:
        p = "%s::<%s>" % (path(f["path"]), ", ".join(params))
    line("function " + f["path"].replace("mixed_num::", "") if f["kind"] == "free" else "function %s" % p,
         "fn g%d%s() { let _: fn(%s) -> %s = %s; }" % (n, generics(params, b, False), ", ".join(rt(x) for x in f["in"]), rt(f["out"]), p))
    wit.append(("g%d" % n, params, b, f["path"], False))
    n += 1

# 4. the kinds of scalar types: trait set, conversions, and the generic capabilities above on each
TYPES = {"fs": [], "fu": [], "is": [], "iu": [], "fl": ["f32", "f64"]}
for w in (8, 16, 32, 64):
    for fr in range(0, w - 2):
        TYPES["fs"].append("fixed::FixedI%d<fixed::types::extra::U%d>" % (w, fr))
        TYPES["fu"].append("fixed::FixedU%d<fixed::types::extra::U%d>" % (w, fr))
for w in ("8", "16", "32", "64", "128", "size"):
    TYPES["is"].append("i" + w)
    TYPES["iu"].append("u" + w)
have = {}
conv = {}
for i in P.impls:
    if i["trait"] and i["trait"].startswith("mixed_num"):
        k = kind(P, i["args"][0])
        if k and len(i["args"]) == 1:
            have.setdefault(k, {}).setdefault(path(i["trait"]), set()).add(P.tname(i["args"][0]))
        elif k:
            conv.setdefault(k, {}).setdefault(rt(i["args"][1]), set()).add(P.tname(i["args"][0]))
KN = {"fs": "signed_fixed", "fu": "unsigned_fixed", "is": "signed_int", "iu": "unsigned_int", "fl": "float"}
CORE = {"fs": ["core::fmt::Display", "core::default::Default", "core::cmp::Eq", "core::fmt::LowerHex", "core::fmt::UpperHex", "core::fmt::Octal", "core::fmt::Binary"],
        "fl": ["core::fmt::Display", "core::default::Default", "core::fmt::LowerExp", "core::fmt::UpperExp"]}
CORE["fu"] = CORE["fs"]
CORE["is"] = CORE["iu"] = CORE["fs"] + CORE["fl"][2:]
for k in ("fs", "fu", "is", "iu", "fl"):
    for t, s in list(have[k].items()) + list(conv[k].items()):
        assert len(s) == len(TYPES[k]), (k, t, len(s))
    bs = sorted(have[k]) + ["mixed_num::MixedNumConversion<%s>" % c for c in sorted(conv[k])]
    calls, skipped = [], []
    sc = {b.split("::")[-1] for b in have[k]} | {c.split("::")[-1] for c in CORE[k]} | \
         {"Copy", "Clone", "PartialOrd", "PartialEq", "Sized", "Debug"} | {"AddAssign<T>", "SubAssign<T>", "MulAssign<T>", "Sub<T>", "Sub<Output = T>"}
    extra = CORE[k] + ["core::fmt::Debug"]
    if k == "fs":
        sc |= {"FixedSigned"}
        extra = extra + ["fixed::traits::FixedSigned"]
    for g, params, b, name, life in wit:
        if name.startswith("Conj"):
            if "MixedNumSigned" in sc:
                for own in ("Cartesian", "Polar"):
                    if "MixedTrigonometry" in sc or (own == "Cartesian" and "for Cartesian" in name):
                        calls.append("%s::<mixed_num::%s<T>, T>();" % (g, own))
            continue
        ok = True
        call = ["T"] * len(params)
        for p in params:
            for x in b.get(p, []):
                y = x.split("::")[-1] if "<" not in x else x[:x.index("<")].split("::")[-1] + x[x.index("<"):]
                y = y.replace("T1", "T").replace("T2", "T")
                if y.startswith("MixedNumConversion<") or y in sc:
                    continue
                ok = False
        if len(params) == 2 and ok:
            for s in ("i32", "f32"):
                # conversions need a source type: the scalar parameter is instantiated
                which = {"T1": s, "T2": "T"}
                if "MixedNumConversion<T2>" in str(b.get("T", [])):
                    which = {"T2": s, "T": "T"}
                calls.append("%s::<%s>();" % (g, ", ".join(which[p] for p in params)))
        elif len(params) == 1 and ok:
            calls.append("%s::<%s>();" % (g, "T"))
        else:
            skipped.append(name)
    sys.stderr.write("%s: %d capabilities, without: %s\n" % (k, len(calls), skipped))
    line("capabilities of every %s type" % KN[k], "fn k_%s<T: %s>() { %s }" % (KN[k], " + ".join(bs + extra), " ".join(calls)))
for k in TYPES:
    for t in TYPES[k]:
        line("trait set of %s" % t.replace("fixed::types::extra::", "").replace("fixed::", ""), "fn t%d() { k_%s::<%s>(); }" % (len(out), KN[k], t))

# 5. unsigned types are not usable where a signed type is required
NEG = [("MixedNumSigned", "mixed_num::MixedNumSigned", "{t}"), ("MixedWrapPhase", "mixed_num::MixedWrapPhase", "{t}"),
       ("MixedComplex of Cartesian", "mixed_num::MixedComplex", "mixed_num::Cartesian<{t}>"),
       ("MixedComplex of Polar", "mixed_num::MixedComplex", "mixed_num::Polar<{t}>"),
       ("complex product", "core::ops::Mul<mixed_num::Cartesian<{t}>>", "mixed_num::Cartesian<{t}>"),
       ("complex quotient", "core::ops::Div<mixed_num::Cartesian<{t}>>", "mixed_num::Cartesian<{t}>"),
       ("conjugate", "mixed_num::Conj<mixed_num::Cartesian<{t}>>", "mixed_num::Cartesian<{t}>")]
for k in ("fu", "iu"):
    for t in TYPES[k]:
        for nm, tr, s in NEG:
            line("%s must lack %s" % (t.replace("fixed::types::extra::", "").replace("fixed::", ""), nm),
                 "fn t%d() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + %s> A<I> for T {} let _ = <%s as A<_>>::f; }" %
                 (len(out), tr.format(t=t), s.format(t=t)))

head = ["//! Compile witnesses of C23: each line compiles exactly when the named capability is offered.",
        "#![no_std]", "#![allow(dead_code, unused_imports, non_snake_case, non_local_definitions)]", "use mixed_num::{Cartesian, Polar};"]
open(os.path.join(HERE, "..", "witness", "src", "lib.rs"), "w").write("\n".join(head + sorted(helpers.values()) + out) + "\n")
