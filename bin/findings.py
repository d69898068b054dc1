"""findings.py PROPERTY COMMIT WHAT : append a 'fixed' entry."""
import json, subprocess, sys
p, c, w = sys.argv[1:4]
c = subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True, check=True).stdout.strip()
open("/verif/known-findings.jsonl", "a").write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w))) + "\n")
