#!/usr/bin/env python3
"""addprop.py: reads JSON objects on stdin, replaces/appends them in properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/properties.jsonl"
d = {}
for l in open(p):
    if l.strip():
        x = json.loads(l); d[x["id"]] = x
for x in json.load(sys.stdin):
    d[x["id"]] = x
with open(p, "w") as f:
    for k in sorted(d):
        f.write(json.dumps(d[k], ensure_ascii=False) + "\n")
