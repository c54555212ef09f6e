#!/usr/bin/env python3
"""python3 bin/check.py <property> -- decide one property on /repo's working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engines
import vlib


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in engines.PROPS:
        print("usage: check.py <property>; properties: " + " ".join(sorted(engines.PROPS)))
        return 2
    prop = sys.argv[1]
    only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed) % 1000000
    ctx = vlib.Ctx(prop, tier, seed)
    code = 2
    try:
        for name in engines.PROPS[prop]:
            if only and name not in only:
                continue
            print("%s: engine %s" % (prop, name), flush=True)
            try:
                engines.ENGINES[name](ctx)
            except vlib.CheckError as e:
                # A violation already established stands; otherwise the check has no answer.
                if not ctx.violations:
                    raise
                print("note: engine %s could not finish: %s" % (name, e))
            if ctx.violations:
                break
        code = vlib.finish(ctx, "model_checking")
    except vlib.CheckError as e:
        print("ERROR: " + str(e))
    except Exception:
        traceback.print_exc()
    finally:
        ctx.close()
    return code


if __name__ == "__main__":
    sys.exit(main())
