#!/bin/bash
# trybugs.sh [ids...]: apply each seeded bug to /repo, run the check of its property, undo it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p > /tmp/trybug.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep -m1 VIOLATION /tmp/trybug.out) [$(grep -ciE 'failed|refuted|unknown' /tmp/trybug.out)]"
done
