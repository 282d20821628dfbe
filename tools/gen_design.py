#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "mc"))
import jobs as J
from props_design import T
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
o = []
for p in props:
    i = p["id"]; e, orc, why = T[i]
    n = len(J.Q.get(i, [])); t = len(J.T.get(i, []))
    o.append("### %s %s\n\nEnumerated: %s  \nOracle: %s.  \nBeyond tests: %s.  \n%s\n" % (i, p["title"], e, orc, why, ("Bounds: %d quick and %d further thorough explorations, `run.py --list %s`." % (n, t, i)) if n else "**Not applicable yet**: " + J.NA.get(i, "check not built yet")))
fx = [l.strip().split(" ", 2) for l in open(os.path.join(V, "tools/dev/fixlog.txt")) if l.strip()]
f = "\n".join("* %s `%s` %s" % tuple(x) for x in fx if len(x) == 3)
sd = os.path.join(V, "seeded"); cf = os.path.join(V, "tools/dev/caught.json"); c = json.load(open(cf)) if os.path.exists(cf) else {}
s = "| bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], c.get(d, "?")) for d in sorted(os.listdir(sd)) for m in [json.load(open(os.path.join(sd, d, "meta.json")))])
x = open(os.path.join(V, "tools/DESIGN.in.md")).read().replace("@@PROPS@@", "\n".join(o)).replace("@@FIXES@@", f).replace("@@SEEDS@@", s)
open(os.path.join(V, "DESIGN.md"), "w").write(x)
