#!/bin/bash
# try_plants.sh [id ...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif || exit 1
for id in ${@:-$(ls seeded)}; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  timeout 900 python3 check.py "$prop" > /tmp/try.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' /tmp/try.$id.log) $(grep -m1 '#' /tmp/try.$id.log | cut -c1-150)"
done
