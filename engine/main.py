"""Entry point of every check: dump the current tree, run the property's analysis, write evidence, give the verdict."""
import os
import sys
import time
import traceback
import build
import report
import watch

import meta
RULES = meta.RULE
TECH = meta.TECH


def table():
    import importlib
    t = {}
    for m in ("checks_complex", "checks_types", "checks_alg", "checks_misc", "checks_effects"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        t.update(mod.CHECKS)
        RULES.update(getattr(mod, "RULES", {}))
        TECH.update(getattr(mod, "TECH", {}))
    return t


def run(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    R = report.Report(pid)
    R.tier = tier
    R.seed = seed
    P = None
    watching = None

    def give_up():
        for _ in range(50):
            try:
                R.functions, R.notes, R.counts, R.fail = set(R.functions), dict(R.notes), dict(R.counts), dict(R.fail)
                break
            except RuntimeError:
                continue
        R.bad("the analysis did not finish", "out of its time or memory budget")
        rc = finish()
        sys.stdout.flush()
        os._exit(rc)

    def finish():
        return R.finish(P, tier, seed, TECH.get(pid, "abstract interpretation of MIR to guarded normal forms"),
                        RULES.get(pid, ""), "./check %s %s" % (pid, tier))
    try:
        fn = table()[pid]
        dev = os.environ.get("MN_DEV_DUMP")
        if dev:
            import mir
            P = mir.Program(dev)
        else:
            P = build.load("default")
        R.count("functions in the dump", len(P.fns))
        R.count("bodies in the dump", len(P.raw))
        R.notes["load_s"] = round(time.time() - R.t0, 2)
        watching = watch.start(give_up) if pid != "C23" else None
        fn(R, P)
        if pid not in ("C22", "C23", "C24") and not os.environ.get("MN_DEV_ONE") and not (R.fail and time.time() - R.t0 > 200):
            # the same obligations with the std feature switched on and debug assertions off (C22 to C24 handle both configurations themselves)
            import checks_misc
            _, Q = list(checks_misc.programs(R, P))[1]
            R.second("std", "with the std feature and without debug assertions")
            watch.mark()
            fn(R, Q)
            R.first()
    except build.BuildError as e:
        R.bad("the tree cannot be analysed", str(e))
    except Exception:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        R.bad("the analysis did not finish", "internal error: " + tb.strip().splitlines()[-1])
    if watching:
        watching.set()
    return finish()
