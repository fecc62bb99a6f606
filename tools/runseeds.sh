#!/bin/bash
# applies each planted change to /repo, runs the property's quick check, undoes the change
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick bin/govc check -prop $p); rc=$?
  git -C /repo checkout -q -- .
  n=$(grep -c '^proof:' <<<"$out"); h=$(grep -c '^input:' <<<"$out")
  echo "$id $p rc=$rc proof=$n input=$h $(($(date +%s)-s))s"
done
