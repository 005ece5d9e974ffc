#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current tree of /repo (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from core import *
import props


def main():
    if sys.argv[1] == "setup":
        build()
        build_cli()
        return 0
    if sys.argv[1] == "replay":
        return props.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        p = props.CHECKS[prop]
        build()
        ctx.log("built")
        p["run"](ctx)
        return finish(ctx, p.get("level", "model_checking"), p.get("assumptions"))
    except ToolError as e:
        print("ERROR of the check: %s" % e)
        # violations found before the tool error still stand
        if ctx.viols:
            return finish(ctx, p.get("level", "model_checking"), p.get("assumptions"))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
