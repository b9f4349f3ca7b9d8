#!/bin/bash
# one.sh ID : check of the bug's property against a scratch copy with the bug
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
d=/tmp/dr/$id.$p; rm -rf "$d"; mkdir -p $d; (cd /repo && git archive HEAD | tar x -C $d)
cd $d && git init -q . 2>/dev/null; git -C $d apply /verif/seeded/$id/patch.diff || { echo $id NOAPPLY; exit; }
mkdir -p $d/v; cp -r /verif/check.py /verif/registry.py /verif/rt /verif/pv /verif/contracts /verif/known_findings.txt $d/v/
cd $d/v && VERIF_REPO=$d VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/plant/out.$id 2>&1
echo "$id $p rc=$? obl=$(grep -c '^obligation\|^UNDECIDED' /tmp/plant/out.$id) $(grep 'VIOLATION prop' /tmp/plant/out.$id | grep -o no-failing.*) $(grep '^failing input' /tmp/plant/out.$id | cut -c1-150)"
rm -rf "$d"
