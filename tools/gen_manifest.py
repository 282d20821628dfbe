#!/usr/bin/env python3
"""Writes MANIFEST.json and known-findings.json from the job table and the fix log."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
    "explore": "Explicit-state exploration of the real code: every history of the stated alphabet, with up to D deviations at every position of an L-step default run, on every listed geometry, is executed on the objects compiled from /repo (sources and distribution), each state being saved, restored and deduplicated; every observation is compared with an independent reference model. Exhaustive within those bounds; nothing is claimed beyond them.",
}
TECH = J.TECH
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.Q:
        checks.append({"property": i, "quick_cmd": "./run.py " + i, "thorough_cmd": "env VERIF_TIER=thorough ./run.py " + i, "technique": TECH.get(i, TECH["*"]), "level": "model_checking",
                       "level_note": J.NOTES.get(i, NOTE["explore"])})
    else:
        na.append({"property": i, "reason": J.NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the explorers link the unmodified objects of /repo and redirect heap, stdio and static data with objcopy. run.py --replay FILE re-executes a recorded violation."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
fixed = []
for l in open(os.path.join(V, "tools", "dev", "fixlog.txt")):
    a = l.strip().split(" ", 2)
    if len(a) == 3:
        fixed.append("fixed: property=%s %s %s" % tuple(a))
kf = os.path.join(V, "known-findings.json")
old = json.load(open(kf)) if os.path.exists(kf) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": fixed}, open(kf, "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable", len(fixed), "fixed")
