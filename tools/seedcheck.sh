#!/bin/bash
# seedcheck.sh [ID...]: run the property's quick check against each planted bug (applied to /repo, undone after)
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py --property $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(echo "$out" | grep VIOLATION)"
done
