#!/bin/bash
# mirror uncommitted src changes into lib/Distribution, build+test, commit with message $1
cd /repo
for f in src/embedDB/embedDB.c src/spline/spline.c src/query-interface/advancedQueries.c src/query-interface/schema.c lib/EmbedDB-Utility/embedDBUtility.c; do
  git diff -U4 $f > /tmp/d.patch; [ -s /tmp/d.patch ] && { patch -s --no-backup-if-mismatch -F3 lib/Distribution/embedDB.c < /tmp/d.patch || { echo MIRROR FAIL $f; exit 1; }; }
done
for f in src/embedDB/embedDB.h src/spline/spline.h src/query-interface/advancedQueries.h src/query-interface/schema.h lib/EmbedDB-Utility/embedDBUtility.h; do
  git diff -U4 $f > /tmp/d.patch; [ -s /tmp/d.patch ] && { patch -s --no-backup-if-mismatch -F3 lib/Distribution/embedDB.h < /tmp/d.patch || { echo MIRROR FAIL $f; exit 1; }; }
done
exit 0
