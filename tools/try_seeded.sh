#!/bin/bash
# Runs the check of each planted bug's property against it: tools/try_seeded.sh [ID...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff 2>/dev/null || { echo "$id DOES-NOT-APPLY"; continue; }
  t=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p ${TIER:-quick} > scratch/try.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' scratch/try.log) $(( $(date +%s) - t ))s $(grep -B1 -m1 '^VIOLATION' scratch/try.log | head -1 | cut -c1-160)"
done
