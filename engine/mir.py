"""The dumped program: types, bodies, control-flow facts (dominators, post-dominators, natural loops, liveness)."""
import json
import homes
import re


class Body:
    pass


class Program:
    def __init__(self, path):
        text = open(path).read()
        d = json.loads(text)
        new = homes.moved(text, d["exports"], {x["path"] for k in ("fns", "traits", "adts") for x in d[k]})
        if new is not text:
            d = json.loads(new)
        self.types = d["types"]
        self.fns = d["fns"]
        self.impls = d["impls"]
        self.traits = d["traits"]
        self.adts = d["adts"]
        self.statics = d["statics"]
        self.others = d["others"]
        self.unsafe_blocks = d["unsafe_blocks"]
        self.exports = d["exports"]
        self.raw = {b["key"]: b for b in d["bodies"]}
        self.fn_by_key = {f["key"]: f for f in self.fns}
        self._bodies = {}
        self._tname = {}
        self._fixed = {}

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.types[i]

    def peel(self, i):
        while self.types[i][0] == "ref":
            i = self.types[i][2]
        return i

    def tnum(self, i):
        """typenum natural number"""
        t = self.types[i]
        if t[0] != "adt":
            return None
        if t[1].endswith("UTerm"):
            return 0
        if t[1].endswith("UInt"):
            hi = self.tnum(t[2][0])
            b = self.types[t[2][1]]
            if hi is None:
                return None
            return 2 * hi + (1 if b[1].endswith("B1") else 0)
        return None

    def fixed(self, i):
        """(signed, bits, frac) for a fixed-point type (frac None if generic)"""
        if i in self._fixed:
            return self._fixed[i]
        t = self.types[i]
        r = None
        if t[0] == "adt":
            m = re.match(r"^fixed::Fixed([IU])(\d+)$", t[1])
            if m:
                r = (m.group(1) == "I", int(m.group(2)), self.tnum(t[2][0]))
        self._fixed[i] = r
        return r

    def tname(self, i):
        r = self._tname.get(i)
        if r is not None:
            return r
        t = self.types[i]
        k = t[0]
        if k in ("int", "float", "param"):
            r = t[1]
        elif k in ("bool", "char", "str", "never"):
            r = k
        elif k == "ref":
            r = ("&mut " if t[1] else "&") + self.tname(t[2])
        elif k == "ptr":
            r = ("*mut " if t[1] else "*const ") + self.tname(t[2])
        elif k == "tuple":
            r = "(" + ", ".join(self.tname(x) for x in t[1]) + ")"
        elif k == "array":
            r = "[%s; %s]" % (self.tname(t[1]), t[2])
        elif k == "slice":
            r = "[%s]" % self.tname(t[1])
        elif k == "adt":
            f = self.fixed(i)
            if f:
                r = "Fixed%s%d<U%s>" % ("I" if f[0] else "U", f[1], f[2])
            else:
                a = [self.tname(x) if isinstance(x, int) else x for x in t[2]]
                r = t[1].split("::")[-1] + ("<" + ", ".join(a) + ">" if a else "")
                if t[1] == "num_complex::Complex":
                    r = "num::" + r
        else:
            r = k + ":" + str(t[1] if len(t) > 1 else "")
        self._tname[i] = r
        return r

    def numeric(self, i):
        """Is i a scalar numeric type (primitive, fixed, or a type parameter standing for one)?"""
        t = self.types[i]
        return t[0] in ("int", "float", "param", "alias") or self.fixed(i) is not None

    def int_range(self, name):
        bits = 64 if name.endswith("size") else int(name[1:])
        return (0, 2 ** bits - 1) if name[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)

    def unsigned(self, i):
        t = self.types[i]
        if t[0] == "int":
            return t[1][0] == "u"
        f = self.fixed(i)
        return bool(f) and not f[0]

    def is_local_adt(self, i):
        t = self.types[i]
        return t[0] == "adt" and t[1].startswith("mixed_num::")

    # ---------------------------------------------------------------- bodies
    def body(self, key):
        b = self._bodies.get(key)
        if b is None:
            raw = self.raw.get(key)
            if raw is None or raw.get("err"):
                return None
            b = analyse(raw)
            self._bodies[key] = b
        return b

    def promoted(self, key, idx):
        k = (key, "p", idx)
        b = self._bodies.get(k)
        if b is None:
            raw = dict(self.raw[key]["promoted"][idx])
            raw["path"] = self.raw[key]["path"] + "::promoted"
            raw["promoted"] = []
            raw["key"] = key
            b = analyse(raw)
            self._bodies[k] = b
        return b


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def analyse(raw):
    b = Body()
    b.key = raw["key"]
    b.path = raw["path"]
    b.locals = raw["locals"]
    b.argc = raw["argc"]
    b.spread = raw["spread"]
    b.blocks = raw["blocks"]
    b.span = raw.get("ispan", "")
    b.local = raw.get("local", True)
    b.crate = raw.get("crate")
    n = len(b.blocks)
    b.succ = [succs(x["t"]) for x in b.blocks]
    # reachable
    seen = {0}
    st = [0]
    while st:
        x = st.pop()
        for y in b.succ[x]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    b.reach = seen
    pred = [[] for _ in range(n)]
    for x in seen:
        for y in b.succ[x]:
            pred[y].append(x)
    # blocks that can reach a return
    live = set(x for x in seen if b.blocks[x]["t"][0] in ("ret", "tailcall"))
    st = list(live)
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in live:
                live.add(p)
                st.append(p)
    b.live = live
    if n > 1:
        b.dom = dominators(seen, pred, [0])
        EXIT = -1
        rp = {x: [y for y in b.succ[x] if y in live] for x in live}
        for x in live:
            if b.blocks[x]["t"][0] in ("ret", "tailcall"):
                rp[x] = [EXIT]
        b.pdom = ipdoms(live, rp, EXIT)
    else:
        b.dom = {0: {0}}
        b.pdom = {}
    # natural loops
    loops = {}
    for x in seen:
        for h in b.succ[x]:
            if h in b.dom.get(x, ()):
                body = loops.setdefault(h, {h})
                st = [x]
                while st:
                    y = st.pop()
                    if y not in body:
                        body.add(y)
                        st.extend(pred[y])
    b.loops = loops
    b.pred = pred
    b._live_in = None
    return b


def dominators(nodes, pred, roots):
    allb = set(nodes)
    dom = {x: (set([x]) if x in roots else set(allb)) for x in nodes}
    order = sorted(nodes)
    ch = True
    while ch:
        ch = False
        for x in order:
            if x in roots:
                continue
            ps = [dom[p] for p in pred[x] if p in dom]
            s = set.intersection(*ps) if ps else set()
            s = s | {x}
            if s != dom[x]:
                dom[x] = s
                ch = True
    return dom


def ipdoms(nodes, succ, EXIT):
    """immediate postdominator of each node (EXIT excluded -> None)"""
    allb = set(nodes) | {EXIT}
    pd = {x: set(allb) for x in nodes}
    pd[EXIT] = {EXIT}
    ch = True
    order = sorted(nodes, reverse=True)
    while ch:
        ch = False
        for x in order:
            ss = [pd[y] for y in succ[x]]
            s = set.intersection(*ss) if ss else set()
            s = s | {x}
            if s != pd[x]:
                pd[x] = s
                ch = True
    out = {}
    for x in nodes:
        cand = pd[x] - {x}
        # the closest: the one whose own postdominator set is the largest
        best = None
        for c in cand:
            if best is None or len(pd[c]) > len(pd[best]):
                best = c
        out[x] = None if best == EXIT else best
    return out


# ---------------------------------------------------------------- liveness
def place_uses(p, uses):
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            uses.add(e[1])


def op_uses(o, uses):
    if o[0] in ("c", "m"):
        uses.add(o[1][0])
        place_uses(o[1], uses)


def rv_uses(r, uses, borrowed):
    k = r[0]
    if k in ("use",):
        op_uses(r[1], uses)
    elif k == "repeat":
        op_uses(r[1], uses)
    elif k in ("ref", "reborrow"):
        uses.add(r[2][0])
        place_uses(r[2], uses)
        borrowed.add(r[2][0])
    elif k in ("addr", "discr"):
        uses.add(r[1][0])
        place_uses(r[1], uses)
        if k == "addr":
            borrowed.add(r[1][0])
    elif k == "cast":
        op_uses(r[2], uses)
    elif k == "bin":
        op_uses(r[2], uses)
        op_uses(r[3], uses)
    elif k == "un":
        op_uses(r[2], uses)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, uses)


def live_in(b):
    """locals live at entry of each block; borrowed locals count as always live"""
    if b._live_in is not None:
        return b._live_in
    borrowed = set()
    gen, kill = {}, {}
    for x in b.reach:
        blk = b.blocks[x]
        g, k = set(), set()

        def use(us):
            for u in us:
                if u not in k:
                    g.add(u)
        for s in blk["s"]:
            if s[0] == "=":
                us = set()
                rv_uses(s[2], us, borrowed)
                place_uses(s[1], us)
                if len(s[1]) > 1:
                    us.add(s[1][0])
                use(us)
                if len(s[1]) == 1:
                    k.add(s[1][0])
            elif s[0] == "sd":
                use({s[1][0]})
        t = blk["t"]
        us = set()
        if t[0] == "switch":
            op_uses(t[1], us)
        elif t[0] == "call":
            for o in t[2]:
                op_uses(o, us)
            if "ind" in t[1]:
                op_uses(t[1]["ind"], us)
            if len(t[3]) > 1:
                us.add(t[3][0])
            place_uses(t[3], us)
        elif t[0] == "assert":
            op_uses(t[1], us)
        elif t[0] == "ret":
            us.add(0)
        elif t[0] == "drop":
            us.add(t[1][0])
        elif t[0] == "tailcall":
            for o in t[2]:
                op_uses(o, us)
        use(us)
        if t[0] == "call" and len(t[3]) == 1:
            k.add(t[3][0])
        gen[x], kill[x] = g, k
    li = {x: set(gen[x]) for x in b.reach}
    ch = True
    while ch:
        ch = False
        for x in b.reach:
            o = set()
            for y in b.succ[x]:
                o |= li[y]
            # a call's destination is defined on the edge; treating it as killed in the block is fine
            n = gen[x] | (o - kill[x])
            if n != li[x]:
                li[x] = n
                ch = True
    for x in li:
        li[x] = li[x] | borrowed
    b._live_in = li
    return li
