#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]   (seed: VERIF_SEED, tier: argument or VERIF_TIER)"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, checks


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "--setup":
        return checks.setup()
    try:
        return checks.CHECKS[prop](tier, seed)
    except build.BuildError as e:
        print("NO-ANSWER property=%s %s failed\n%s" % (prop, e, e.log[-6000:]))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
