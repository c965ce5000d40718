#!/bin/bash
# runs every check (or the ones named) one after another; tier in $TIER
cd "$(dirname "$0")/.."
T=${TIER:-quick}
for p in ${@:-$(python3 -c 'import spec;print(" ".join(sorted(spec.PROPS)))')}; do
  s=$(date +%s); o=$(python3 check.py $p --tier $T 2>&1); rc=$?
  echo "== $p rc=$rc $(( $(date +%s) - s ))s"; [ $rc != 0 ] && echo "$o" | tail -25
done
