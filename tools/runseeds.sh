#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s); o=$(timeout 900 bash check.sh $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  v=$(echo "$o" | grep '^VIOLATION' | head -1)
  echo "$d $p rc=$rc $((e-s))s ${v:-$(echo "$o"|tail -1)}"
done
