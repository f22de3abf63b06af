"""C22-C26: formatting, impl tables, effects, constants, derived semantics and layout."""
from fractions import Fraction as Fr
from core import (Poly, pa, num, atom, dp, dnum, leaf, ite, OR, AND, NOT, TRUE, FALSE, applyn)
import core
import compare
import fm
import builtins_mn as B
from interp import (Interp, Unsupported, Agg, Enum, UNDEF, NAN, n_cmp, n_neg)
from report import short, loc
from checks_complex import Run, form, comp, guarded, unchanged, check_value, CUT, PARTS

# ------------------------------------------------------------------ C22
FORMATS = {"Display": "", "LowerExp": "", "UpperExp": "", "LowerHex": "0x", "UpperHex": "0x", "Octal": "0o", "Binary": "0b"}
F = "core::fmt::"
DEFAULT_FLAGS = 0x60000020      # fill ' ', alignment unknown, no sign/alternate/zero-pad flag
HAS_COUNTS = 0x18000000         # bookkeeping bits: precision and width given
RIGHT = 0x20000020              # fill ' ', aligned to the right


def fl(f):
    return DEFAULT_FLAGS if f is None else f & ~HAS_COUNTS


def absval(x):
    """|x| as a diagram whose zero cell holds the token ('unsigned zero', x)"""
    return applyn(lambda p: core.sign_cases(p, dp(-p), leaf(("unsigned zero", p)), dp(p)), [x])


def spec_segments(tr, re, im, std):
    """Diagram of the segments the formatter must receive."""
    prec = applyn(lambda h: dp(pa(atom("var", "f.precision", (), nonneg=True, isint=True))) if h else leaf(None),
                  [B.fcond("has_precision")])
    pre = applyn(lambda a: leaf(FORMATS[tr] if a else ""), [B.fcond("alternate")])
    neg = n_cmp("lt", re, dnum(0)), n_cmp("lt", im, dnum(0))
    s1 = applyn(lambda n, p: leaf("-" if n else ("+" if p else "")), [neg[0], B.fcond("sign_plus")])
    s2 = applyn(lambda n: leaf("-" if n else "+"), [neg[1]])

    def put(a, b, pr, x, y, p):
        return leaf(B.cat((), (("lit", a + pr), ("val", tr, x, None, None, p), ("lit", b + pr),
                               ("val", tr, y, None, None, p), ("lit", "i"))))
    s = applyn(put, [s1, s2, pre, absval(re), absval(im), prec])
    if std:
        w = dp(pa(atom("var", "f.width", (), nonneg=True, isint=True)))
        s = applyn(lambda h, x: leaf((("padded", x, RIGHT, w.v, None),)) if h else leaf(x), [B.fcond("has_width"), s])
    return s


def same_count(a, b, pc):
    if a is None or b is None:
        return a is b
    return isinstance(a, Poly) and isinstance(b, Poly) and compare.poly_equal(a, b, pc)


def seg_equal(a, b, pc):
    """a written, b required"""
    if a[0] != b[0]:
        return False
    if a[0] == "lit":
        return a[1] == b[1]
    if a[0] == "val":
        if a[1] != b[1] or fl(a[3]) != fl(b[3]) or not same_count(a[4], b[4], pc) or not same_count(a[5], b[5], pc):
            return False
        if isinstance(b[2], tuple) and b[2][0] == "unsigned zero":
            # 0 or 0 - x, but not x itself, which may be a negative zero carrying its own sign
            return isinstance(a[2], Poly) and a[2] != b[2][1] and compare.poly_equal(a[2], core.ZERO, pc)
        return isinstance(a[2], Poly) and isinstance(b[2], Poly) and compare.poly_equal(a[2], b[2], pc)
    if a[0] == "padded":
        return len(a[1]) == len(b[1]) and all(seg_equal(x, y, pc) for x, y in zip(a[1], b[1])) and \
            fl(a[2]) == fl(b[2]) and same_count(a[3], b[3], pc) and same_count(a[4], b[4], pc)
    return a == b


def show_segs(s):
    o = []
    for x in s:
        if x[0] == "lit":
            o.append(repr(x[1]))
        elif x[0] == "val":
            v = "|%s|" % x[2][1] if isinstance(x[2], tuple) else str(x[2])
            o.append("%s(%s%s%s%s)" % (x[1], v, ", flags %#x" % fl(x[3]) if fl(x[3]) != DEFAULT_FLAGS else "",
                                       ", width %s" % (x[4],) if x[4] is not None else "",
                                       ", precision %s" % (x[5],) if x[5] is not None else ""))
        elif x[0] == "padded":
            o.append("padded(%s; flags %#x, width %s, precision %s)" % (show_segs(x[1]), fl(x[2]), x[3], x[4]))
        else:
            o.append(str(x))
    return " ".join(o) or "nothing"


def writes_fail(pc):
    return any(c.kind == "bool" and isinstance(c.key, tuple) and c.key[:2] == ("fmt", "write_fails") and i == 1 for c, i in pc)


def format_impl(R, P, f, cfg, want_fn):
    name = short(P, f) + ("" if cfg == "default" else " (std)")

    def one():
        I = Interp(P, cut=CUT)
        st = {}
        x = dp(pa(atom("var", "first")))
        y = dp(pa(atom("var", "second")))
        z = Agg([x, y])
        c = I.new_cell(st, z)
        fm_ = I.new_cell(st, leaf(("formatter",)))
        try:
            ret, out = I.call_body(P.body(f["key"]), [leaf(("ref", c, ())), leaf(("ref", fm_, ()))], st, TRUE)
            g = I.last_g
        finally:
            R.used(I, f)
        want = want_fn(x, y)
        log = out.get(B.LOG, leaf(()))
        n = bad = 0
        both = applyn(lambda a, b: leaf(("pair", a, b)), [log, want])
        for pc, pr in I.prune(both, g):
            if writes_fail(pc) or compare.contradictory(pc):
                continue
            n += 1
            R.cells += 1
            a, b = pr[1], pr[2]
            if len(a) == len(b) and all(seg_equal(p, q, pc) for p, q in zip(a, b)):
                continue
            bad += 1
            R.bad("%s, text" % name, "when %s it writes %s, must write %s" % (compare.show_pc(pc), show_segs(a), show_segs(b)), loc(f))
            break
        R.require(n > 0, "%s, no cell" % name, "nothing was analysed", loc(f))
        if not bad:
            R.ok(n)
            if len(R.samples) < 8:
                R.samples.append("%s: %d cells agree" % (name, n))
        # the result is an error exactly when a write failed
        if not isinstance(ret, Enum):
            R.bad("%s, result" % name, "the result %r is not a fmt::Result" % (ret,), loc(f))
        else:
            d = compare.diff(I, ret.tag, applyn(lambda b: leaf(1 if b else 0), [out.get(B.FAILS, FALSE)]), g, (), "", R)
            R.require(not d, "%s, result" % name, "" if not d else "a formatter error is not propagated when %s" % d[1], loc(f))
        d = compare.diff(I, out.get(c, UNDEF), z, g, (), "", R)
        R.require(not d, "%s, operand" % name, "the printed number is modified", loc(f))
        lost = NOT(g)
        R.require(lost is FALSE or not I.feasible(lost), "%s, no result" % name, "some inputs yield no result", loc(f))
        for e in I.events:
            if e.kind in ("panic", "unbounded") and I.feasible(e.g):
                R.bad("%s, %s" % (name, e.kind), "%s: %s" % (e.kind, e.what), e.loc or loc(f))
    guarded(R, name, f, one)


def programs(R, P):
    """the two feature configurations"""
    import os
    import build
    yield "default", P
    dev = os.environ.get("MN_DEV_DUMP_STD")
    if dev:
        import mir
        Q = mir.Program(dev)
    else:
        Q = build.load("std")
    R.count("functions in the dump (std)", len(Q.fns))
    yield "std", Q


def C22(R, P):
    for cfg, Q in programs(R, P):
        have = {}
        for f in Q.fns:
            if f["kind"] != "traitimpl" or f["self"] is None or f["name"] != "fmt" or not f["trait"].startswith(F) or f["key"] not in Q.raw:
                continue
            k, tr = form(Q, f["self"]), f["trait"][len(F):]
            if k == "C" and tr in FORMATS:
                want = lambda x, y, tr=tr: spec_segments(tr, x, y, cfg == "std")
            elif k == "P" and tr == "Display":
                def want(x, y):
                    return applyn(lambda p, q: leaf((("val", "Display", p, None, None, None), ("lit", "\u2220"),
                                                     ("val", "Display", q, None, None, None))), [x, y])
            else:
                R.count("formatting impls outside the claim")
                continue
            have[(k, tr)] = have.get((k, tr), 0) + 1
            format_impl(R, Q, f, cfg, want)
        for tr in FORMATS:
            R.floor("%s for Cartesian (%s)" % (tr, cfg), have.get(("C", tr), 0), 1)
        R.floor("Display for Polar (%s)" % cfg, have.get(("P", "Display"), 0), 1)


# ------------------------------------------------------------------ C23
def C23(R, P):
    """The compiler decides: each line of witness/src/lib.rs compiles exactly when the capability it names is offered."""
    import os
    import build
    lines = open(os.path.join(build.ROOT, "witness", "src", "lib.rs")).read().split("\n")
    name = {i + 1: l.split("// @ ")[1] for i, l in enumerate(lines) if "// @ " in l}
    R.floor("witnesses", len(name), 1200)
    for i, l in name.items():
        R.count({"supe": "supertrait sets", "meth": "method signatures", "gene": "generic impls", "func": "functions",
                 "capa": "kinds of scalar types", "trai": "scalar types"}.get(l[:4], "absences on unsigned types"))
    for cfg in ("default", "std"):
        seen = {}
        for ln, msg in build.witness(cfg):
            what = name.get(ln)
            if what is None:
                what = "helper " + (lines[ln - 1] if ln <= len(lines) else "?").split("(")[0][:120]
            seen.setdefault(what, []).append(msg)
        for what, msgs in seen.items():
            if "must lack" in what:
                R.bad(what, "the witness of absence does not compile: %s" % msgs[0])
            else:
                R.bad(what, "; ".join(dict.fromkeys(msgs))[:500])
        R.ok(len(name) - len(seen))
    # the impl table: which scalar types the capabilities were found on, and no sign claimed by an unsigned type
    from checks_types import kind
    for i in P.impls:
        if i["trait"] == "mixed_num::traits::MixedNumSigned":
            k = kind(P, i["args"][0])
            R.require(k in ("fs", "is", "fl"), "MixedNumSigned for %s" % P.tname(i["args"][0]),
                      "a type of unknown or no sign claims to be signed", i.get("span"))
    R.samples += [name[i] for i in sorted(name)[:: max(1, len(name) // 10)]]


# ------------------------------------------------------------------ C26
def C26(R, P):
    for k, nm in (("C", "Cartesian"), ("P", "Polar")):
        adt = [a for a in P.adts if a["path"] == "mixed_num::complex::" + nm]
        if not R.require(len(adt) == 1, "anchor missing: %s" % nm, "the type %s is not there" % nm):
            continue
        a = adt[0]
        R.require(a["reprc"] and not a["packed"], "%s, representation" % nm, "%s is not repr(C): its layout is unspecified" % nm)
        fields = [x[0] for x in a["fields"]]
        want = ["re", "im"] if k == "C" else ["mag", "ang"]
        R.require(fields == want, "%s, coordinate order" % nm, "the coordinates are stored as %s, must be %s" % (fields, want))
        R.require(all(x[2] for x in a["fields"]), "%s, visibility" % nm, "a coordinate of %s is not public" % nm)
        R.floor("layouts of %s" % nm, len(a["layouts"]), 5)
        for t, size, align, offs in a["layouts"]:
            w = {"u8": 1, "i16": 2, "f32": 4, "f64": 8, "u128": 16}.get(t)
            R.require(w is not None and size == 2 * w and offs == [0, w], "%s<%s>, layout" % (nm, t),
                      "size %s, offsets %s, must be %s and [0, %s]" % (size, offs, w and 2 * w, w))
        n = {}
        for f in P.fns:
            if f["kind"] != "traitimpl" or f["self"] is None or form(P, f["self"]) != k or f["key"] not in P.raw:
                continue
            tr, m = f["trait"], f["name"]
            if tr not in ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::clone::Clone", "core::default::Default", "core::cmp::Ord"):
                continue
            if len(f["in"]) == 2 and form(P, f["in"][1]) != k:
                R.count("comparisons with another form")
                continue
            n[m] = n.get(m, 0) + 1
            pair_fn(R, P, f, tr, m, k)
        for m in ("eq", "partial_cmp", "clone", "default"):
            R.floor("%s of %s" % (m, nm), n.get(m, 0), 1)
        impls = {i["trait"] for i in P.impls if isinstance(i["args"][0], int) and form(P, i["args"][0]) == k and i["trait"]}
        R.require("core::marker::Copy" in impls, "%s is not Copy" % nm, "the type no longer copies")
        drops = [i for i in P.impls if i["trait"] == "core::ops::Drop" and form(P, i["args"][0]) == k]
        R.require(not drops, "%s has a destructor" % nm, "copies are no longer plain values")


def eq2(x, y):
    return AND(n_cmp("eq", x[0], y[0]), n_cmp("eq", x[1], y[1]))


def lex(x, y):
    """(less, equal) of the lexicographic order"""
    e0 = n_cmp("eq", x[0], y[0])
    return OR(n_cmp("lt", x[0], y[0]), AND(e0, n_cmp("lt", x[1], y[1]))), AND(e0, n_cmp("eq", x[1], y[1]))


def order(x, y):
    lt, eq = lex(x, y)
    return Enum(ite(lt, leaf(0), ite(eq, leaf(1), leaf(2))), {0: Agg(()), 1: Agg(()), 2: Agg(())})


BOOLS = {"eq": lambda l, e: e, "ne": lambda l, e: NOT(e), "lt": lambda l, e: l, "le": lambda l, e: OR(l, e),
         "gt": lambda l, e: NOT(OR(l, e)), "ge": lambda l, e: NOT(l)}


def cmp_tags(I, ret):
    """an Ordering or Option<Ordering> as one diagram: -1 None, 0 Less, 1 Equal, 2 Greater"""
    if isinstance(ret, Enum) and 1 in ret.vs and ret.vs[1].f and isinstance(ret.vs[1].f[0], Enum):
        return applyn(lambda t, o: leaf(o if t == 1 else -1), [ret.tag, ret.vs[1].f[0].tag])
    if isinstance(ret, Enum) and 1 in ret.vs and not ret.vs[1].f and 2 not in ret.vs:
        raise Unsupported("ordering of an unknown shape")
    if isinstance(ret, Enum):
        return ret.tag
    raise Unsupported("ordering of an unknown shape")


def pair_fn(R, P, f, tr, m, k):
    name = short(P, f)

    def one():
        if m == "default":
            run = Run(R, P, f)
            d = dp(pa(atom("const", "default", (P.tname(comp(P, f["out"])),))))
            check_value(R, run, name, run.ret, (d, d), TRUE, PARTS[k], "the default value")
            return
        run = Run(R, P, f)
        x = run.vals[0].f
        if m in ("clone", "clone_from"):
            if m == "clone":
                check_value(R, run, name, run.ret, tuple(x), TRUE, PARTS[k], "the clone")
                unchanged(R, run, name, [0])
            else:
                check_value(R, run, name, run.final(0), tuple(run.vals[1].f), TRUE, PARTS[k], "the clone")
            return
        if len(run.vals) != 2:
            R.count("methods outside the claim")
            return
        y = run.vals[1].f
        lt, eq = lex(x, y)
        if m in BOOLS:
            check_value(R, run, name, run.ret, BOOLS[m](lt, eq), TRUE, ("answer",), "the comparison")
        elif m in ("partial_cmp", "cmp"):
            got = cmp_tags(run.I, run.ret)
            check_value(R, run, name, got, ite(lt, leaf(0), ite(eq, leaf(1), leaf(2))), TRUE, ("ordering",), "the comparison")
        else:
            R.count("methods outside the claim")
            return
        unchanged(R, run, name, [0, 1])
        # a coordinate that compares with nothing (NaN): never equal, never ordered by that coordinate
        for c in (0, 1):
            for side in (0, 1):
                v = [list(x), list(y)]
                v[side][c] = NAN
                r2 = Run(R, P, f, fix={0: Agg(v[0]), 1: Agg(v[1])})
                if m in BOOLS:
                    first = c == 0
                    w = BOOLS[m](n_cmp("lt", x[0], y[0]), FALSE) if not first else (TRUE if m == "ne" else FALSE)
                    if not first and m in ("le", "ge", "lt", "gt"):
                        w = n_cmp("lt" if m in ("le", "lt") else "gt", x[0], y[0])
                    if m == "ne":
                        w = TRUE
                    check_value(R, r2, name + " with an incomparable coordinate", r2.ret, w, TRUE, ("answer",), "the comparison")
                elif m == "partial_cmp":
                    got = cmp_tags(r2.I, r2.ret)
                    w = leaf(-1) if c == 0 else ite(n_cmp("eq", x[0], y[0]), leaf(-1), ite(n_cmp("lt", x[0], y[0]), leaf(0), leaf(2)))
                    check_value(R, r2, name + " with an incomparable coordinate", got, w, TRUE, ("ordering",), "the comparison")
    guarded(R, name, f, one)


CHECKS = {n: globals()[n] for n in ("C22", "C23", "C26")}
