#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo in turn, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 1
[ $# = 0 ] && set -- $(ls seeded)
for id; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id $prop does not apply"; continue; }
  t=$(date +%s)
  out=$(VERIF_SEED=${SEED:-1} timeout 900 python3 tools/check.py $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ]; then w=caught; else w="MISSED rc=$rc"; fi
  echo "$id $prop $w $(( $(date +%s)-t ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -A3 '^VIOLATION' | head -3 | tr '\n' ' ' | cut -c1-200)"
done
