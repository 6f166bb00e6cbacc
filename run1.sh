#!/bin/bash
# dev helper: run1.sh UNIT [verus args]
u=$1; shift
build/vx/release/vx ${VERIF_REPO:+--repo $VERIF_REPO} --unit $u --out /tmp/w/$u.rs > /tmp/w/$u.json || exit 1
python3 -c "
import json;d=json.load(open('/tmp/w/$u.json'))
for l in d['lost']: print('LOST',l)
for f in d['fns']:
  if f['lost_anchors']: print('LOSTANCHOR',f['fn'],f['lost_anchors'])
  if f['unspecified_loops'] and not f['external']: print('UNSPEC',f['fn'],f['unspecified_loops'])
  if f['inlined']: print('INLINED',f['fn'],f['inlined'])
"
timeout 300 verus /tmp/w/$u.rs --num-threads 6 --time "$@" 2>&1 | grep -v '^ *total\|^note: automatically' > /tmp/w/$u.out; grep -E '^(error|warning)|-->|^ *[0-9]+ \||verification results|^ *= ' /tmp/w/$u.out | head -${N:-60}
