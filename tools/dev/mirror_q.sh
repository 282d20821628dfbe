#!/bin/bash
# mirror of the query sources in the distribution's pointer style
cd /repo; for f in src/query-interface/advancedQueries.c src/query-interface/schema.c; do git diff -U4 $f | sed -E '/^(---|\+\+\+|@@|diff|index)/!s/\b([A-Za-z_0-9]+)\* ([a-zA-Z_])/\1 *\2/g; s/\(([A-Za-z0-9_]+)\*\)/(\1 *)/g; s/\(\(([a-z A-Z]+)\*\)/((\1 *)/g' > /tmp/d.patch; [ -s /tmp/d.patch ] && { patch -s --no-backup-if-mismatch -F3 lib/Distribution/embedDB.c < /tmp/d.patch || echo FAIL; }; done
