#!/bin/bash
# seeded.sh [ID...]: apply each seeded bug to /repo, run its own property's quick check, undo
cd /verif; ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  t0=$(date +%s); timeout 890 ./run.sh $p quick > /tmp/seeded.$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c '^VIOLATION' /tmp/seeded.$i.log) $(sed -n 2p /tmp/seeded.$i.log | cut -c1-150)"
done
