#!/bin/bash
# tools/runseed.sh [-t] ID...: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif || exit 1
tier=quick
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  st=$(date +%s)
  timeout 900 ./check $p $tier >/tmp/runseed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-st ))s $(grep -m1 VIOLATION /tmp/runseed.out | cut -c1-160)"
  [ $rc = 1 ] || tail -5 /tmp/runseed.out
done
