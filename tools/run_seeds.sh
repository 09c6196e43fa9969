#!/bin/bash
# run_seeds.sh [id...]: applies each planted change to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(python3 check.py "$p"); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -q VIOLATION && (echo "$out" | grep -q no-failing-input-found && echo "obligation" || echo "input"))"
  echo "$out" | grep -E "^failed obligation|^undecided" | cut -c1-200
done
