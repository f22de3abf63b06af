"""Collects obligations, violations and coverage of one check run; writes the evidence file and the verdict."""
import json
import os
import time
import core
from core import leaf, TRUE, FALSE
from interp import Interp, Unsupported, Agg, Enum, UNDEF
import compare

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.fail = {}            # key -> message
        self.functions = set()
        self.cells = 0
        self.steps = 0
        self.notes = {}
        self.samples = []
        self.assumptions = []
        self.trusted = ["rustc (type checking, trait resolution, MIR construction)",
                        "the transfer functions in engine/interp.py and engine/builtins_mn.py",
                        "exact rational arithmetic of Python's fractions module"]
        self.counts = {}
        self.cfg = None
        self.saved = None

    def second(self, cfg, text):
        """the obligations that follow are those of another feature configuration"""
        self.cfg, self.cfgtext = cfg, text
        self.saved = (self.functions, self.counts, self.notes)
        self.functions, self.counts, self.notes = set(), {}, {}

    def first(self):
        f, c, n = self.saved
        c["functions analysed (%s)" % self.cfg] = len(self.functions)
        for k, v in self.counts.items():
            if v != c.get(k):
                c["%s (%s)" % (k, self.cfg)] = v
        for k, v in self.notes.items():
            if v != n.get(k):
                n["%s_%s" % (k, self.cfg)] = v
        self.functions, self.counts, self.notes = f, c, n

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, key, msg, loc=None):
        """one failed obligation"""
        self.obligations += 1
        k = "%s: %s" % (self.pid, key)
        if self.cfg and k in self.fail:
            return                # also with the other features
        self.fail.setdefault(k, "%s%s%s" % (("in the build %s: " % self.cfgtext) if self.cfg else "", msg, (" [%s]" % loc) if loc else ""))

    def floor(self, name, n, least):
        """fail closed when fewer instances than confirmed by hand are found"""
        self.counts["instances of " + name] = n
        if n < least:
            self.bad("anchor missing: %s" % name, "found %d instances of %s, the confirmed number is %d" % (n, name, least))
        else:
            self.ok()

    def require(self, cond, key, msg, loc=None):
        if cond:
            self.ok()
        else:
            self.bad(key, msg, loc)
        return cond

    def used(self, I, f=None):
        self.steps += I.steps
        for k in I.visited:
            self.functions.add(k)

    def finish(self, P, tier, seed, technique, rule, checker):
        known = {}
        kf = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e.get("status") == "known" and e["property"] == self.pid:
                    known[e["key"]] = e["what"]
        names = []
        if P is not None:
            for k in self.functions:
                b = P.raw.get(k)
                if b:
                    names.append(b["path"])
        uniq = sorted(set(names))
        viol = {k: v for k, v in self.fail.items() if k not in known}
        out = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "proof",
            "coverage": {
                "obligations": self.obligations, "discharged": self.discharged,
                "checker_cmd": checker, "trusted_base": self.trusted,
                "rule": rule, "technique": technique,
                "functions_analysed": len(self.functions), "distinct_function_paths": len(uniq),
                "function_samples": uniq[:40], "cells_compared": self.cells, "mir_steps": self.steps,
                "counts": self.counts, "samples": self.samples[:12],
                "known_findings": sorted(k for k in self.fail if k in known),
                "failed": {k: self.fail[k] for k in sorted(viol)[:50]},
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(viol),
        }
        out["coverage"].update(self.notes)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(out, f, indent=1)
        os.replace(p + ".tmp", p)
        for k in sorted(self.fail):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        if viol:
            rp = os.path.join(ROOT, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                f.write("%s: %d violated obligation(s) of %d\nrule: %s\n\n" % (self.pid, len(viol), self.obligations, rule))
                for k in sorted(viol):
                    f.write("* %s\n    %s\n" % (k, viol[k]))
                f.write("\nreplay: cd /verif && %s\n" % checker)
            for k in sorted(viol)[:8]:
                print("  %s -- %s" % (k, viol[k][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations discharged (%d functions, %.1f s)" % (self.pid, self.discharged, len(self.functions), time.time() - self.t0))
        return 0


# ------------------------------------------------------------------ helpers shared by the checks
def short(P, f):
    """line-free identity of a function"""
    def tn(x):
        return P.tname(x) if isinstance(x, int) else str(x)
    if f["kind"] == "traitimpl":
        a = [tn(x) for x in f["trait_args"]][1:]
        return "<%s as %s%s>::%s" % (tn(f["self"]), f["trait"].split("::")[-1], "<%s>" % ", ".join(a) if a else "", f["name"])
    return f["path"].replace("mixed_num::", "")


def loc(f):
    a, b = f.get("span"), f.get("ispan")
    return a if a == b or not b else "%s, expanded from %s" % (a, b)
