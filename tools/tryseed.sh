#!/bin/bash
# usage: tryseed.sh ID... : applies each planted bug to /repo, runs its property's quick check, undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || continue
  o=$(cd "$V" && timeout 900 bash run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$o" | grep -E '^--- |VIOLATION' | head -2 | tr '\n' ' ')"
done
