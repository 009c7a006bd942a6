#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = vlib.Ctx(prop, tier, seed)
    import registry
    try:
        registry.CHECKS[prop](ctx)
        rc = ctx.finish()
    except vlib.Uncompilable as e:
        # what the property is about can no longer be written down
        ctx.report("compile", [], [{"op": "UNCOMPILABLE", "text": str(e)}], 1, "no specification")
        rc = ctx.finish()
    except vlib.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        if ctx.violations:
            rc = ctx.finish()
        else:
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

main()
