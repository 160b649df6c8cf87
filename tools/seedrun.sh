#!/bin/bash
# developer tool: run the property's check on each planted bug given (default: all); prints caught/missed
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
  out=$(VERIF_QUIET=1 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -A1 '  case' | head -2 | tr '\n' ' ' | cut -c1-200)"
done
