#!/bin/bash
# catch.sh ID...: apply a planted bug to /repo, run its property's quick check, undo it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | sed -n 2,3p | cut -c1-400 | tr '\n' ' ')"
done
