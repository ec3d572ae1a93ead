#!/bin/bash
# catch.sh [seeded-id...]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
for b in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
 git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
 a=$(date +%s.%N)
 for c in ${CHECKS:-$p}; do
 VERIF_SEED=${S:-1} VERIF_TIER=quick timeout 900 ./check $c --tier quick > .build/catch-$b-$c 2>&1; rc=$?
 z=$(date +%s.%N)
 v=$(grep -m1 "VIOLATION property=$c" .build/catch-$b-$c)
 printf "%-24s %s rc=%d %.1fs %s\n" $b $c $rc $(echo "$z-$a"|bc) "$([ $rc = 1 ] && [ -n "$v" ] && echo CAUGHT "$(grep -v '^KNOWN' .build/catch-$b-$c | tail -2 | head -1| cut -c1-170)" || echo MISSED)"
 done
 git -C /repo checkout -q -- .
done
