#!/bin/bash
# bash tools/seedrun.sh [seed ids...]: apply each planted bug to /repo, run its property's check, undo.
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t0=$(date +%s); out=$(bash tools/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep VIOLATION | head -2)"
done
