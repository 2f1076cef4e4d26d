#!/bin/bash
# runbugs.sh [id...]: apply each planted bug to /repo, run the check of its property, undo. Prints what caught it.
cd /verif/seeded || exit 2
for d in ${*:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo not clean"; exit 2; }
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c 'failing input') inputs, $(echo "$out" | grep -c 'failed obligation') obligations: $(echo "$out" | grep VIOLATION)"
  [ -n "$V" ] && echo "$out" | grep 'failing input\|failed obl' | cut -c1-300
done
