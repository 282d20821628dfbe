#!/bin/bash
# reads configs from stdin, one per line; runs in parallel; prints summary
cd /tmp/b
T=${T:-src}
xargs -d '\n' -P 8 -I{} bash -c 'o=$(timeout 400 ./explore-'$T' {} 2>&1 | tail -1); python3 - "$o" "{}" <<"P"
import sys,json
try:
    j=json.loads(sys.argv[1]); print(("VIOL " if j["violation"] else "ok   ")+sys.argv[2],"| st",j["states"],"tr",j["transitions"],"cr",j["crash_points"],"cD",j["completedD"],"w",j["wall"],("\n   -> "+j["violation"]+"\n   PATH "+j["path"]) if j["violation"] else "")
except Exception as e: print("ERR",sys.argv[2],sys.argv[1][:300])
P'
