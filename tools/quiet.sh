#!/bin/bash
# quiet.sh PATCH [property ...]: applies a behaviour-preserving patch to /repo, runs the quick checks, undoes it.
cd /verif || exit 1
patch=$1; shift
git -C /repo apply "$patch" || exit 1
for p in ${@:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
  t0=$(date +%s)
  timeout 900 python3 check.py "$p" > /tmp/quiet.$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' /tmp/quiet.$p.log) $(grep -m1 'FAILED\|#[0-9]' /tmp/quiet.$p.log | cut -c1-150)"
done
git -C /repo checkout -q -- .
