#!/bin/bash
# mkseed.sh ID PROP [dist]: /repo's working tree holds the bug, /verif/seeded/ID/demo.c the demonstration.
# Confirms: builds, 257 tests pass, demo fails with it and passes without; then runs the property's check against it.
ID=$1; P=$2; S=/verif/seeded/$ID; TGT=${3:-src}
cd /repo; [ -n "$(git status --porcelain)" ] || { echo "no change"; exit 1; }
mkdir -p $S; [ "$TGT" = none ] || cp /verif/tools/dev/demo.h $S/
if [ ! -f $S/demo.sh ]; then
if [ "$TGT" = src ]; then SRC='-I. -Isrc -Ilib/EmbedDB-Utility -Ilib/Desktop-File-Interface "$D/demo.c" src/embedDB/embedDB.c src/spline/spline.c lib/EmbedDB-Utility/embedDBUtility.c src/query-interface/schema.c src/query-interface/advancedQueries.c'; else SRC='-DDIST -Ilib/Distribution -Ilib/Desktop-File-Interface "$D/demo.c" lib/Distribution/embedDB.c'; fi
cat > $S/demo.sh <<X
#!/bin/bash
# exit 0 if the behaviour is right, nonzero if not; works in a scratch directory of its own
D=\$(cd "\$(dirname "\$0")" && pwd); T=\$(mktemp -d) || exit 2; trap 'rm -rf "\$T"' EXIT
gcc -w -g $SRC -lm -o "\$T/demo" || exit 2
cd "\$T" && timeout 60 ./demo
X
chmod +x $S/demo.sh; fi
git diff > $S/patch.diff
r=$(/verif/tools/dev/vt.sh); echo "tests: $r"
bash $S/demo.sh > /tmp/demo_bad.txt 2>&1; b=$?
VERIF_PROCS=8 /verif/run.py $P > /tmp/seed_$ID.txt 2>&1; c=$?
git checkout -q -- . ; 
bash $S/demo.sh > /tmp/demo_ok.txt 2>&1; g=$?
python3 - "$ID" "$P" $c <<'Y'
import json,sys,os
f="/verif/tools/dev/caught.json"; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=sys.argv[2] if sys.argv[3]=="1" else "missed"
json.dump(d,open(f,"w"),indent=1,sort_keys=True)
Y
echo "$ID demo bad=$b good=$g  check $P exit=$c"; head -3 /tmp/demo_bad.txt; grep -A3 "history" /tmp/seed_$ID.txt | head -4 | cut -c1-300; tail -1 /tmp/seed_$ID.txt
[ "$r" = "257 257 missing: []" ] && [ $b != 0 ] && [ $g = 0 ] && echo "KEEP $ID" || echo "REJECT $ID"
