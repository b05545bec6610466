#!/bin/bash
# caught.sh ID...: applies each planted change to /repo, runs its property's quick check, undoes it. Development aid.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(echo "$out" | grep VIOLATION | head -1 | cut -c1-140)"
done
