#!/bin/bash
# runall.sh [tier] : every claimed check in turn, one line each.
cd "$(dirname "$0")/.." || exit 2
for p in $(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$(date +%s); bash run.sh $p ${1:-quick} > /tmp/runall.$p.out 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c 'left 0)' /tmp/runall.$p.out)/$(grep -c 'left ' /tmp/runall.$p.out) $(grep -m1 -E 'VIOLATION|WARNING|MISMATCH|not reproduced' /tmp/runall.$p.out)"
done
