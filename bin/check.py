#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, props
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    p = props.PROPS[pid]
    sys.exit(vp.check(pid, p["units"](tier), p["level"], p["assumptions"], tier))
