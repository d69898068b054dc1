#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.PROPS."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, props
V = vp.VERIF
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 bin/check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s thorough" % i,
                           technique=q.get("technique") or "contract-based deductive verification of the real C code (CBMC discharges the postcondition of each function/dispatch case for all inputs; counterexamples replayed natively)",
                           level=q["level"], level_note=q.get("note") or "; ".join(q["assumptions"])))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="SCC_VERIFY", enable="the harnesses under /verif define SCC_VERIFY before including /repo's sources; nothing else defines it",
                    source_commits=props.HOOK_COMMITS),
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
