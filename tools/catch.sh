#!/bin/bash
# Apply each planted bug to /repo, run its property's quick check, undo. usage: catch.sh OUT [id ...]
out=$1; shift
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLYFAIL" >> $out; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh $p quick > /tmp/catch.$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/catch.$i.log)
  echo "$i $p rc=$rc viol=$v $(( $(date +%s)-s ))s" >> $out
done
echo DONE >> $out
