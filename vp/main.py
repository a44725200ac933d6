"""python -m vp.main <property> <quick|thorough> ; python -m vp.main replay <file>"""
import importlib
import json
import os
import sys
import traceback

from . import core


def registry():
    import vp.registry
    return vp.registry.CHECKS


def main(argv):
    if argv[0] == "replay":
        with open(argv[1]) as f:
            rec = json.load(f)
        ctx = core.Ctx(rec["property"], "quick", int(os.environ.get("VERIF_SEED", "1")))
        try:
            if rec["case"] is None or "trace" in rec["case"]:
                print(rec["detail"])
                return 1
            ctx.replay(rec["driver"], [rec["case"]], extra=rec.get("extra"))
            for f in ctx.failures:
                print(f["detail"])
            print("reproduced" if ctx.failures else "not reproduced")
            return 1 if ctx.failures else 0
        finally:
            ctx.cleanup()
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = registry()[pid]
    ctx = core.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(f"checks.{modname}")
        mod.run(ctx)
        return ctx.finish()
    except core.MachineryError as e:
        if ctx.failures:  # a violation was already established; report it
            return ctx.finish()
        print(f"MACHINERY ERROR in {pid}: {e}", file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        if ctx.failures:
            return ctx.finish()
        return 3
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
