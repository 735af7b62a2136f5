#!/bin/bash
# runs the property's quick check against each planted change (arguments: names, default all)
cd "$(dirname "$0")/.."
[ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "/repo not clean"; exit 2; }
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$SECONDS
  out=$(timeout 900 python3 check.py "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep VIOLATION | tail -1)"
done
