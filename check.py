#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks
if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        sys.exit(checks.run(prop))
    except vlib.Infra as e:
        print("CHECK-ERROR", e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
