#!/bin/bash
# runbugs.sh [ID...]: apply each planted bug to /repo, run the check of its property (or $PROPS), undo.
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue 2; }
    s=$(date +%s); out=$(timeout 900 bash check.sh $q quick 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION <<<"$out")"
    [ $rc -gt 1 ] && tail -5 <<<"$out"
  done
done
