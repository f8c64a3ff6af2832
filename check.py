#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]: runs the check of one property.

Exit 0: held. Exit 1: a line `VIOLATION property=ID replay=PATH` was printed.
Anything else: the check itself could not give an answer."""
import sys, os, importlib, traceback, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vp

MODULES = {"D": "c_doc", "S": "c_store", "V": "c_conv", "J": "c_source", "H": "c_history", "F": "c_files", "G": "c_intf"}


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(MODULES[pid[0]])
    fn, level = mod.CHECKS[pid]
    ctx = vp.Ctx(pid, tier, seed, level)
    try:
        vp.build()
        if replay:
            mod.replay(ctx, json.load(open(replay)))
        else:
            fn(ctx)
        code = ctx.finish()
        print("%s %s: %s in %.1fs %s" % (pid, tier, "held" if code == 0 else "VIOLATED", vp.time.time() - ctx.t0,
                                       {k: v for k, v in ctx.cov.items() if not isinstance(v, (list, dict))}))
        return code
    except Exception:
        traceback.print_exc()
        # a violation already found stays a violation
        if ctx.viol:
            return ctx.finish()
        return 2
    finally:
        if not os.environ.get("VP_KEEP"):
            ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
