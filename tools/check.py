#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- decide one property (see MANIFEST.json, DESIGN.md)."""
import sys, os, traceback
if os.environ.get("PYTHONHASHSEED") != "0":            # set order decides what is sampled: keep it fixed
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import *
import props

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        level, assumptions = props.REG[prop](ctx)
    except Infra as e:
        print("INFRA property=%s: %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); return 2
    return ctx.finish(level, assumptions)
if __name__ == "__main__":
    sys.exit(main())
