#!/bin/bash
# catch.sh SEEDID...: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  ./check.sh $p quick >/tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "== $id ($p) exit $rc: $(grep -a VIOLATION /tmp/catch.out) $(grep -a 'FAILING INPUT' /tmp/catch.out | cut -c1-200)"
  grep -a "FAILED OBL" /tmp/catch.out | head -4
done
