#!/usr/bin/env python3
"""Re-run a replay file written by a check: builds the harness natively against
/repo's current sources and feeds it the recorded inputs."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
d = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix="vp_replay_")
try:
    u = vp.Unit(d["unit"], d["harness"], d["defines"], calls=d.get("calls", []))
    rc = 0
    for a in d["attempts"]:
        print("obligation:", a["obligation"])
        r = vp.replay(u, a["inputs"], os.path.join(w, "r"))
        print(r["output"], "confirmed" if r["confirmed"] else "not reproduced")
        rc |= r["confirmed"]
    if not d["attempts"]:
        print("no failing input; failed obligations:", d["failed_obligations"])
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if rc else 0)
