#!/bin/bash
# tools/catch.sh [id ...]: apply each planted bug to /repo, run its property's check (or all given in $CHECKS), undo
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    out=$(timeout 900 python3 checks/check.py $c quick 2>&1); rc=$?
    echo "$i $c rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | grep -v ^VIOLATION | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
