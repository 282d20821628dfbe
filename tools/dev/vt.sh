#!/bin/bash
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
bp=set( b['stable'] or [])
tp=set(t.get('passed') or t.get('pass') or [])
print(len(bp),len(tp),'missing:',sorted(bp-tp)[:10])
PY
