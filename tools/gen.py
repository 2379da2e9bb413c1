#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS
from tools.claims import CLAIMS, NA
ids = {re.match(r"c(\d+)_", f).group(1): f for f in os.listdir(os.path.join(V, "checks")) if re.match(r"c\d+_.*\.py$", f)}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
            if not os.path.exists("/repo/" + a):
                print("no such file", p["id"], a)
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i[1:] in ids and i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        if i not in NA:
            print("unclaimed without a reason:", i)
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 -m vlib.build", "checks": checks, "not_applicable": na,
     "notes": "Hooks: none, /repo is built as it is. Every check builds /repo's working tree into /verif/.work/<hash of the sources>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(checks), "claimed")
