#!/bin/bash
# runbugs.sh [id...]: applies each planted bug to /repo, runs the check of its property (quick), undoes it.
cd "$(dirname "$0")/../.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_TIER=quick python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
