#!/bin/bash
# Applies each planted bug to /repo in turn and runs the check of its property. usage: detect.sh [id ...]
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$SECONDS; out=$(./check.sh $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION <<<"$out")"
done
