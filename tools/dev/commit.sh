#!/bin/bash
# commit.sh "message": mirror, build, test, commit
cd /repo && /tmp/mirror.sh || exit 1
r=$(/tmp/vt.sh); echo "$r"
[ "$r" = "257 257 missing: []" ] || { echo NOT COMMITTED; exit 1; }
git add -A && git commit -qm "$1" && git log --oneline | head -1
