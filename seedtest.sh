#!/bin/bash
# dev helper: seedtest.sh SEED-ID...  applies the planted bug to a scratch copy of /repo and runs the property's check on it
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
R=/tmp/seed/st_$id
mkdir -p /tmp/seed; rsync -a --delete --exclude target --exclude .git /repo/ $R/ 2>/dev/null || { mkdir -p $R; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | (cd $R && tar xf -); }
(cd $R && git init -q . 2>/dev/null; git apply $d/patch.diff) || { echo "$id: patch does not apply"; continue; }
VERIF_REPO=$R python3 /verif/check.py $p > /tmp/seed/$id.log 2>&1; rc=$?
echo "$id [$p] exit $rc: $(grep -a -c 'obligation failed' /tmp/seed/$id.log) obligations failed; $(grep -a VIOLATION /tmp/seed/$id.log | sed 's/replay=[^ ]*//')"
rm -rf $R
done
