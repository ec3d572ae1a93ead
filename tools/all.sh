#!/bin/bash
# all.sh [seed] [tier] [ids...]: runs checks one after another; a line each
cd "$(dirname "$0")/.."
S=${1:-1}; T=${2:-quick}; shift 2
IDS=${@:-$(seq -f C%02g 1 28)}
for i in $IDS; do
 a=$(date +%s.%N)
 VERIF_SEED=$S VERIF_TIER=$T ./check $i --tier $T > .build/out-$i 2>&1; rc=$?
 b=$(date +%s.%N)
 printf "%s rc=%d %.1fs %s\n" $i $rc $(echo "$b-$a"|bc) "$(grep -v KNOWN .build/out-$i | tail -1 | cut -c1-200)"
done
