#!/bin/bash
# tools/runseed.sh <id>... : run the owning check against each planted bug (applied to /repo, undone afterwards)
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  out=$(python3 check.py ${PROP:-$p} --tier ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- torch_harmonics
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -m1 rejected: | cut -c1-120)"
done
