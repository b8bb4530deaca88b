#!/bin/bash
# tools/catch.sh [ID...]: applies each planted bug to /repo, runs its property's check (or $CHECKS), undoes it.
cd "$(dirname "$0")/.." || exit 2
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    t=$(date +%s)
    ./check.sh "$c" >work/catch-$d-$c.log 2>&1; rc=$?
    v=$(grep -c '^VIOLATION property='$c work/catch-$d-$c.log)
    echo "$d $c rc=$rc violations=$v $(( $(date +%s) - t ))s"
  done
  git -C /repo checkout -- .
done
