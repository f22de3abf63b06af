"""C24: effects of every function of the crate. C25: constants of the generic algorithms against every type's range."""
import core
import compare
import fm
import builtins_mn as B
from core import AND, FALSE, TRUE, Poly, dnum, dp, num, pa, atom
from interp import Interp, Unsupported, n_cmp, PI_DEC, PI, PIP
from report import short, loc
from checks_complex import Run, CUT, guarded, unchanged, form, int_ranges
from checks_misc import programs

PURE_CRATES = {"core", "num_traits", "num_complex", "num", "libm", "fixed", "cordic", "typenum", "mixed_num", "az", "half", "bytemuck"}
HEAP_CRATES = {"alloc", "std"}
IMPURE = ("core::cell::", "core::sync::", "core::ptr::", "core::mem::transmute", "core::mem::zeroed", "core::mem::uninitialized",
          "core::mem::maybe_uninit", "core::arch::", "core::intrinsics::volatile", "core::hint::unreachable_unchecked",
          "core::panic::Location", "core::task::", "core::future::", "core::alloc::")
TEXT_MODULES = ("string::", "fmt::", "str::", "vec::", "borrow::", "boxed::", "slice::")
PANICKING = ("core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
             "core::slice::index::slice_", "core::str::slice_error_fail", "core::cell::panic_", "std::rt::begin_panic", "std::panicking::",
             "std::process::", "core::intrinsics::abort", "alloc::alloc::handle_alloc_error", "core::slice::copy_from_slice")
ARITH_ASSERT = ("Overflow", "OverflowNeg", "DivisionByZero", "RemainderByZero")
FMT = "core::fmt::"


def clean(path):
    """paths of re-exported crates lose the prefix of the re-exporting one"""
    for p in ("mixed_num::std::", "mixed_num::alloc::"):
        path = path.replace(p, p[len("mixed_num::"):])
    return path


def operands_of(bb):
    for s in bb["s"]:
        if s[0] == "=":
            yield from rv_ops(s[2])
    t = bb["t"]
    if t[0] == "call":
        yield from t[2]
    elif t[0] in ("switch", "assert"):
        yield t[1]


def rv_ops(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k in ("cast", "un"):
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "agg":
        return list(r[2])
    return []


def derefs_raw(P, b, place):
    """does the place go through a raw pointer?"""
    ty = b["locals"][place[0]]
    for e in place[1:]:
        if e == "*":
            t = P.ty(ty)
            if t[0] == "ptr":
                return True
            if t[0] == "ref":
                ty = t[2]
                continue
            return False
        if isinstance(e, list) and e[0] == "f":
            ty = e[2]
        elif isinstance(e, list) and e[0] in ("i", "ci"):
            t = P.ty(ty)
            ty = t[1] if t[0] in ("array", "slice") else ty
    return False


def places_of(s):
    if s[0] == "=":
        yield s[1]
        r = s[2]
        if r[0] in ("ref", "reborrow"):
            yield r[2]
        elif r[0] in ("addr", "discr"):
            yield r[1]
        for o in rv_ops(r):
            if o[0] in ("c", "m"):
                yield o[1]
    elif s[0] == "sd":
        yield s[1]


class Effects:
    """Syntactic effects of each dumped body, and the call graph between them."""

    def __init__(self, R, P, cfg):
        self.R, self.P, self.cfg = R, P, cfg
        self.calls, self.risky, self.texts = {}, {}, {}
        self.local = [k for k, b in P.raw.items() if not b.get("err") and b["local"]]
        for k, b in P.raw.items():
            if not b.get("err"):
                self.scan(k, b)

    def bad(self, what, b, text, where):
        self.R.bad("%s%s, %s" % (clean(b["path"]), "" if self.cfg == "default" else " (std)", what), text, where)

    def scan(self, k, b):
        P, R = self.P, self.R
        calls, risky, texts = set(), [], []
        bodies = [b] + [p for p in b["promoted"] if p]
        for body in bodies:
            for bb in body["blocks"]:
                if bb["c"]:
                    continue
                for s in bb["s"]:
                    if b["local"]:
                        if s[0] == "=":
                            R.count("statements")
                            kind = s[2][0]
                            if kind == "tls":
                                self.bad("thread-local state", b, "reads %s" % s[2][1], s[3])
                            elif kind == "addr":
                                self.bad("raw pointer", b, "takes a raw address", s[3])
                            elif kind == "cast" and ("Transmute" in s[2][1] or "Provenance" in s[2][1] or "PtrToPtr" in s[2][1]):
                                self.bad("raw reinterpretation", b, "cast %s" % s[2][1], s[3])
                        for pl in places_of(s):
                            if len(pl) > 1 and derefs_raw(P, body, pl):
                                self.bad("raw pointer", b, "dereferences a raw pointer", s[-1])
                for o in operands_of(bb):
                    if o[0] == "k" and b["local"]:
                        v = o[1]["v"]
                        if v[0] == "static" and v[2]:
                            self.bad("global state", b, "uses the mutable static %s" % v[1], bb["l"])
                        t = P.ty(o[1]["t"])
                        if t[0] == "fndef":
                            self.callee_effect(b, clean(t[1]), t[1].split("::")[0].strip("<&"), bb["l"], texts)
                t = bb["t"]
                if t[0] == "assert":
                    risky.append((t[3].strip(), bb["l"], self.operand_type(body, bb, t)))
                elif t[0] == "call":
                    c = t[1]
                    if "ind" in c:
                        continue
                    res = c.get("res")
                    path = clean(res["path"] if res else c["path"])
                    if t[4] is None or path.startswith(PANICKING):
                        risky.append(("call of " + path, bb["l"], None))
                    if res and res.get("key") is not None and res["key"] in P.raw:
                        calls.add(res["key"])
                    if b["local"]:
                        R.count("call sites")
                        self.callee_effect(b, path, c["crate"], bb["l"], texts)
                        if c["unsafe"] and not path.startswith(FMT):
                            self.bad("unsafe call", b, "calls the unsafe function %s" % path, bb["l"])
                elif t[0] == "other" and b["local"]:
                    self.bad("inline assembly or coroutine", b, t[1][:80], bb["l"])
        self.calls[k], self.risky[k], self.texts[k] = calls, risky, texts

    def operand_type(self, body, bb, t):
        """type of the arithmetic an overflow assertion guards"""
        for s in reversed(bb["s"]):
            if s[0] == "=" and s[2][0] in ("bin", "un"):
                o = s[2][2]
                if o[0] in ("c", "m"):
                    ty = body["locals"][o[1][0]]
                    for e in o[1][1:]:
                        if e == "*" and self.P.ty(ty)[0] == "ref":
                            ty = self.P.ty(ty)[2]
                        elif isinstance(e, list) and e[0] == "f":
                            ty = e[2]
                    return ty
                return o[1]["t"]
        return None

    def callee_effect(self, b, path, crate, where, texts):
        R = self.R
        crate = "std" if path.startswith("std::") else "alloc" if path.startswith("alloc::") else crate
        R.count("calls into " + crate)
        if path.startswith(IMPURE):
            self.bad("hidden state or raw memory", b, "calls %s" % path, where)
        elif crate in HEAP_CRATES:
            rest = path.split("::", 1)[1] if "::" in path else path
            if crate == "std" and rest.startswith(("f32::", "f64::")) or crate == "core":
                return
            if self.cfg == "default":
                self.bad("allocation or I/O", b, "calls %s in the no-std configuration" % path, where)
            elif rest.startswith(TEXT_MODULES) or "ToString" in path or "String" in path:
                texts.append((path, where))
            else:
                self.bad("I/O or platform service", b, "calls %s" % path, where)
        elif crate not in PURE_CRATES:
            self.bad("unknown effect", b, "calls %s of crate %s" % (path, crate), where)

    def cycles(self):
        """strongly connected components with a cycle (Tarjan, iterative)"""
        idx, low, on, st, out = {}, {}, set(), [], []
        n = [0]
        for root in self.calls:
            if root in idx:
                continue
            work = [(root, iter(sorted(self.calls[root])))]
            idx[root] = low[root] = n[0]
            n[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in self.calls:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.calls[w]))))
                        adv = True
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in self.calls[v]:
                        out.append(comp)
        return out


def reach(E, key, stop):
    seen, st = {key}, [key]
    while st:
        for w in E.calls.get(st.pop(), ()):
            if w not in seen and w not in stop:
                seen.add(w)
                st.append(w)
    return seen


def own_scalar(P, f, ty):
    """Is ty the number type the operation is about (its own arithmetic may be rejected by the type)?"""
    if ty is None:
        return False
    t = P.ty(ty)
    if t[0] in ("param", "alias") or P.fixed(ty) is not None or t[0] == "float":
        return True
    s = f["self"]
    return s is not None and P.peel(s) == P.peel(ty)


def few_scalings():
    """a loop that rescales a number by a constant factor turns fewer than 2^20 times on every supported type (2^-1074 .. 2^1024)"""
    return tuple((pa(a.info["geo"][2]) - num(2 ** 20), "<=") for a in core._atom_list if a.info and a.info.get("geo"))


def mid_loop(v):
    """a counter in the middle of a summarised loop: it moves between its first and its last value, which are checked themselves"""
    return any(isinstance(x, Poly) and any(core.atom_by_id(i).name.startswith("h#") for i in x.atoms(deep=True)) for x in core.leaves(v))


def judge(R, P, f, name, run):
    I = run.I
    for e in I.events:
        if e.kind in ("panic", "unbounded") and I.feasible(e.g):
            R.bad("%s, %s" % (name, "deliberate panic" if e.kind == "panic" else "termination"), "%s" % e.what, e.loc or loc(f))
        if e.kind == "usub" and I.feasible(AND(e.g, n_cmp("lt", e.val, dnum(0)))):
            R.bad("%s, counter" % name, "an unsigned count may fall below zero: %s" % e.what, e.loc or loc(f))
        if e.kind == "ineg" and not own_scalar(P, f, e.ty) and not mid_loop(e.val):
            lo = B.type_range(P, e.ty)
            if lo and I.feasible(AND(e.g, n_cmp("eq", e.val, dnum(lo[0]))), few_scalings() + int_ranges(P, f, run)):
                R.bad("%s, counter" % name, "%s overflows" % e.what, e.loc or loc(f))
    lost = AND(run.g0, core.NOT(run.g))
    if lost is not FALSE and I.feasible(lost):
        R.bad("%s, no result" % name, "some inputs yield no result", loc(f))
    for i, t in enumerate(f["in"]):
        ty = P.ty(t)
        if ty[0] == "ref" and ty[1] and not (i == 0 and f["trait"] and f["trait"].endswith("Assign")):
            unchanged(R, run, name, [i])
    R.ok()


def decide(R, P, f, name, cfg):
    """run the value analysis of one function and demand that no panic, endless loop or counter wrap is feasible"""
    def one():
        for label, run in runs(R, P, f, havoc=True):
            judge(R, P, f, name + label, run)
    guarded(R, name, f, one)


def descends(R, P, comp):
    """the only function of a recursion calls itself with a smaller nonnegative integer each time"""
    f = P.fn_by_key.get(comp[0])
    if not f:
        # an instance of a generic function for particular types
        fs = [x for x in P.fns if x["path"] == P.raw[comp[0]]["path"] and x["key"] in P.raw and x["generics"]]
        f = fs[0] if len(fs) == 1 else None
    if len(comp) != 1 or not f or any(P.ty(t)[0] == "ref" and P.ty(t)[1] for t in f["in"]):
        return False
    run = None
    for havoc in (True, False):
        try:
            run = Run(R, P, f, cut=CUT - {f["path"]}, havoc=havoc, rec=True)
            break
        except (Unsupported, core.TooBig):
            pass
    if run is None or not run.calls:
        return False
    for i, t in enumerate(f["in"]):
        if P.ty(t)[0] != "int":
            continue
        rng = int_ranges(P, f, run)
        if all(not run.I.feasible(AND(g, n_cmp("ge", a[i], run.vals[i])), rng) and not run.I.feasible(AND(g, n_cmp("le", a[i], dnum(-1))), rng) for g, a, _l in run.calls):
            R.ok(len(run.calls))
            R.notes["recursion of " + clean(P.raw[comp[0]]["path"])] = "argument %d is smaller in each of its %d recursive calls and not negative" % (i + 1, len(run.calls))
            return True
    return False


def C24(R, P0):
    for cfg, P in programs(R, P0):
        tag = "" if cfg == "default" else " (std)"
        for s in P.statics:
            if s[1] or not s[2] or s[3]:
                R.bad("%s%s, global state" % (s[0], tag), "a static that can change: %s" % ("mutable" if s[1] else "thread-local" if s[3] else "interior mutability"), s[4])
        for o in P.others:
            R.bad("foreign code%s" % tag, "the crate declares %s" % o)
        for sp in P.unsafe_blocks:
            R.bad("unsafe block%s at %s" % (tag, sp.split("/src/")[-1].split(":")[0]), "unsafe code", sp)
        for f in P.fns:
            if f["unsafe"]:
                R.bad("%s%s, unsafe function" % (short(P, f), tag), "an unsafe function", loc(f))
        for i in P.impls:
            if i["unsafe"]:
                R.bad("%s%s, unsafe impl" % (i["trait"], tag), "an unsafe implementation", i.get("span"))
        for t in P.traits:
            if t["unsafe"]:
                R.bad("%s%s, unsafe trait" % (t["path"], tag), "an unsafe trait")
        E = Effects(R, P, cfg)
        R.ok(len(E.local))
        R.floor("bodies of the crate" + tag, len(E.local), 15000)
        # allocation only while text with a requested width is being written
        fmts = set()
        for f in P.fns:
            if f["trait"] and f["trait"].startswith(FMT):
                fmts |= reach(E, f["key"], ())
        for k, ts in E.texts.items():
            if ts and k not in fmts:
                E.bad("allocation", P.raw[k], "calls %s outside formatting" % ts[0][0], ts[0][1])
        for comp in E.cycles():
            names = sorted({clean(P.raw[k]["path"]) for k in comp})
            if any(P.raw[k]["local"] for k in comp) and not descends(R, P, comp):
                R.bad("%s%s, recursion" % (names[0], tag), "recursive calls between %s are not shown to end" % ", ".join(names[:4]), P.raw[comp[0]].get("span"))
        # functions whose panics, loops or &mut operands need the value analysis
        stop = {k for k, b in P.raw.items() if not b.get("err") and b["path"] in CUT}
        roots = 0
        for f in P.fns:
            k = f["key"]
            if k not in P.raw or f["nested"]:
                continue
            tr = f["trait"] or ""
            if tr.startswith(FMT):
                continue
            todo = []
            for w in reach(E, k, stop - {k}):
                b = P.raw[w]
                if b.get("err"):
                    continue
                for what, where, ty in E.risky[w]:
                    if what.startswith(ARITH_ASSERT) and (own_scalar(P, f, ty) or not b["local"]):
                        continue
                    if not b["local"] and not what.startswith("call of"):
                        continue
                    todo.append(what)
                bb = P.body(w)
                if b["local"] and bb.loops:
                    todo.append("loop")
            muts = [i for i, t in enumerate(f["in"]) if P.ty(t)[0] == "ref" and P.ty(t)[1] and not (i == 0 and tr.endswith("Assign"))]
            if muts:
                todo.append("&mut operand")
            if not todo:
                continue
            if not f["exported"] and f["kind"] == "free":
                # private helpers are analysed in the functions that call them
                continue
            roots += 1
            decide(R, P, f, short(P, f) + tag, cfg)
        R.floor("functions decided by value analysis" + tag, roots, 15)


CHECKS = {"C24": C24}


# ------------------------------------------------------------------ runs that also cover loops without a summary
def runs(R, P, f, **kw):
    """Runs covering every input of f: one run when the loops have summaries, else one per exponent or power-of-four range."""
    base = {}
    niirf = f["path"].endswith("sqrt::niirf")
    cut = CUT - {f["path"]}
    if kw.pop("havoc", False):
        try:
            return [("", Run(R, P, f, cut=cut, havoc=True, **kw))]
        except (Unsupported, core.TooBig):
            pass
    if niirf:
        base = {1: dnum(2)}
    try:
        return [("", Run(R, P, f, fix=base, cut=cut, **kw))]
    except (Unsupported, core.TooBig) as e:
        what = getattr(e, "what", "the value graph grows too large")
        x = dp(pa(atom("var", "a")))
        if f["path"].endswith("trigonometry::powi"):
            from checks_alg import SAMPLE_N
            R.notes["powi_mode"] = "per exponent: " + what
            return [(" with exponent %d" % k, Run(R, P, f, fix={1: dnum(k)}, cut=cut, **kw)) for k in SAMPLE_N if k <= 130]
        if niirf:
            R.notes["niirf_mode"] = "per magnitude range: " + what
            out = [(" of zero", Run(R, P, f, fix={0: dnum(0), 1: dnum(2)}, cut=cut, **kw))]
            for sgn in (1, -1):
                ax = x.v.scale(sgn)
                g0 = AND(n_cmp("ge", dp(ax), dnum(core.Fr(1, 4))), n_cmp("lt", dp(ax), dnum(1)))
                for E in range(-9, 10):
                    out.append((" near 4^%d" % E, Run(R, P, f, fix={0: dp(x.v.scale(core.Fr(4) ** E)), 1: dnum(2)}, cut=cut, g=g0, **kw)))
            return out
        raise


# ------------------------------------------------------------------ C25
def const_value(p):
    """the value of a polynomial in pi alone, or None"""
    if not isinstance(p, Poly):
        return None
    if p.is_const():
        return p.const()
    if p.atoms(deep=True) - {PI.id}:
        return None
    v = core.Fr(0)
    for m, c in p.t:
        for a, e in m:
            if not isinstance(e, (int, core.Fr)) or e != int(e):
                return None
            c = c * PI_DEC ** int(e)
        v += c
    return v


def type_facts(P, t, vals):
    """the operands lie in the type's range; its extremes are its extremes"""
    lo, hi = B.type_range(P, t)
    out = []
    for a in vals:
        out += [(pa(a) - num(lo), ">="), (pa(a) - num(hi), "<=")]
    for a in core._atom_list:
        if a.name == "MAX" and a.kind == "const":
            out.append((pa(a) - num(hi), "="))
        elif a.name == "MIN" and a.kind == "const":
            out.append((pa(a) - num(lo), "="))
    return tuple(out)


def C25(R, P):
    from checks_types import kind
    fixed = {}
    offers = {}
    for i in P.impls:
        s = i["args"][0]
        if isinstance(s, int) and P.fixed(s) and P.fixed(s)[2] is not None:
            k = kind(P, s)
            if k in ("fs", "fu"):
                offers.setdefault(s, set()).add(i["trait"])
                if i["trait"] == "mixed_num::traits::MixedReal":
                    fixed[s] = k
    R.floor("fixed-point types", len(fixed), 224)
    core_traits = ("core::", "num::", "num_traits::", "fixed::")
    n_fn = n_const = 0
    for f in P.fns:
        tr = f["trait"] or ""
        if f["key"] not in P.raw or f["nested"] or not f["exported"] or tr.startswith("core::fmt::") or tr.endswith("MixedPi"):
            continue
        concrete = None
        if f["self"] is not None and P.peel(f["self"]) in fixed:
            concrete = P.peel(f["self"])
            if tr.endswith("MixedNumConversion"):
                continue
        elif not f["generics"]:
            continue
        if any(form(P, t) is None for t in f["in"]):
            R.count("functions outside the claim (other operand kinds)")
            continue
        name = short(P, f)
        n_fn += 1

        def one():
            nonlocal n_const
            for label, run in runs(R, P, f):
                I = run.I
                for e in I.events:
                    if e.kind not in ("const", "arith"):
                        continue
                    dst = e.ty[1] if e.kind == "const" else e.ty
                    d = e.val if hasattr(e.val, "c") else dp(e.val) if isinstance(e.val, Poly) else dnum(e.val)
                    if dst is None or P.ty(dst)[0] != "param" and dst not in fixed:
                        continue
                    vals = {}
                    for p in core.leaves(d):
                        v = const_value(p)
                        if v is not None:
                            vals[v] = p
                    for v in vals:
                        n_const += 1
                        types = [dst] if dst in fixed else candidates(P, f, dst, fixed, offers, core_traits)
                        over = [t for t in types if not fits(P, t, v)]
                        R.ok(len(types) - len(over))
                        for t in sorted(over, key=lambda t: B.type_range(P, t)[1]):
                            ops = [core.atom_by_id(a) for a in operand_atoms(I, d, e.g)]
                            ext = type_facts(P, t, ops)
                            hit = None
                            for pc, p in I.prune(d, e.g, ext):
                                if const_value(p) == v and not fm.pc_infeasible(pc, ext) and not compare.contradictory(pc, ext):
                                    hit = pc
                                    break
                            if R.require(hit is None, "%s, constant %s%s" % (name, core.fstr(v) if v.denominator < 10 ** 6 else "%.6g" % float(v), label),
                                         "%s needs the value %.6g, which %s (largest value %.6g) cannot represent, when %s" % (
                                             e.what, float(v), P.tname(t), float(B.type_range(P, t)[1]), compare.show_pc(hit)) if hit is not None else "",
                                         e.loc or loc(f)) is False:
                                break
        guarded(R, name, f, one)
    R.floor("functions analysed for constants", n_fn, 2000)
    R.floor("constants materialised", n_const, 1000)


def operand_atoms(I, d, g):
    s = set()
    for x in (d, g):
        for p in core.leaves(x):
            if isinstance(p, Poly):
                s |= p.atoms(deep=True)
        for c in core.conds(x):
            if c.kind == "sign":
                s |= c.key.atoms(deep=True)
    return [a for a in s if core.atom_by_id(a).kind == "var" and not core.atom_by_id(a).isint]


def fits(P, t, v):
    lo, hi = B.type_range(P, t)
    ulp = core.Fr(1, 2 ** P.fixed(t)[2])
    return lo - ulp / 2 <= v < hi + ulp / 2


def candidates(P, f, param, fixed, offers, skip):
    """the fixed-point types that meet every bound f puts on the type parameter"""
    key = (f["key"], param)
    if key not in _cand:
        need = set()
        for p in f["preds"]:
            if p[0] == "trait" and p[2] and p[2][0] == param and not p[1].startswith(skip):
                need.add(p[1])
        signed = any(p[0] == "trait" and p[2] and p[2][0] == param and "Signed" in p[1] for p in f["preds"])
        _cand[key] = [t for t, k in fixed.items() if need <= offers[t] and (k == "fs" or not signed)]
    return _cand[key]


_cand = {}
CHECKS = {"C24": C24, "C25": C25}
