#!/bin/bash
# seedrun.sh [id...] : for each planted bug, applies it to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 2
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i $p APPLY-FAILED"; continue; }
  s=$(date +%s)
  timeout 900 bash run.sh $p > /tmp/seedrun.$i.out 2>&1; rc=$?
  git -C /repo checkout -- .
  v=$(grep -m1 "^VIOLATION property=$p" /tmp/seedrun.$i.out)
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s ${v:-MISSED}"
done
