#!/bin/bash
# tools/catch.sh [ID...]: applies each planted bug to /repo in turn, runs its property's quick check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  O=$(VERIF_TIER=quick timeout 900 ./run.sh $P 2>&1); R=$?
  git -C /repo checkout -- .
  if [ $R = 1 ] && grep -q "^VIOLATION property=$P" <<<"$O"; then echo "$d $P caught"; else echo "$d $P MISSED rc=$R: $(tail -1 <<<"$O")"; fi
done
