#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run its property's check, undo
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  s=$(date +%s); out=$(python3 check.py ${CHECK:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i ($p): rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -E 'counterexample|NO-VERDICT|INCOMPLETE' | cut -c1-160)"
done
