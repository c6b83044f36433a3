#!/bin/bash
# seeds.sh [ID...] : applies each planted change to /repo in turn and runs its property's quick check.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; continue; }
  ./run.sh "$p" quick >/tmp/w/seed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " /tmp/w/seed.out; then echo "$i: $p caught"; else echo "$i: $p MISSED (exit $rc)"; fi
done
