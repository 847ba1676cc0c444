#!/usr/bin/env python3
"""python3 checks/run.py <property id>: decide one property on the current source of the crate."""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(200000)
import threading
import lib


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(pid.lower())
    try:
        ctx = lib.Ctx(pid, tier, seed)
    except lib.facts.ExtractError as e:
        print("cannot analyse: %s" % e)
        return 2
    for r in getattr(mod, "RULES", []):
        ctx.rules.append(r)
    try:
        ctx.parallel = getattr(mod, "PARALLEL", False)
        mod.check(ctx)
        ctx.flush()
    except lib.MissingAnchor as e:
        ctx.ob("anchor", False, None, str(e))
    except Exception as e:
        if os.environ.get("CHECK_DEBUG"):
            raise
        traceback.print_exc(file=sys.stdout)
        ctx.ob("analysis", None, None, "not interpreted: %s %s" % (type(e).__name__, e))
    return lib.finish(ctx, mod.EXPLAIN)


if __name__ == "__main__":
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    threading.stack_size(512 * 1024 * 1024)
    sys.exit(main())
