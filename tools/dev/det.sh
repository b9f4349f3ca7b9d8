#!/bin/bash
# det.sh IDs: run the check of its property against each planted bug
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo $id NOAPPLY; continue; }
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/plant/out.$id 2>&1; echo "$id $p rc=$? $(grep -c '^obligation' /tmp/plant/out.$id) $(grep VIOLATION /tmp/plant/out.$id | head -1 | cut -c1-150)"; tail -1 /tmp/plant/out.$id)
  git -C /repo checkout -- .
done
