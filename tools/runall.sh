#!/bin/bash
# runs every check: runall.sh [tier] [seed]
cd "$(dirname "$0")/.."
export VERIF_SEED=${2:-1}
for p in $(python3 -c "from jobs import JOBS; print(*sorted(JOBS))"); do
  python3 check.py $p ${1:-quick} > /tmp/runall.$p.out 2>&1; rc=$?
  echo "$p rc=$rc $(tail -1 /tmp/runall.$p.out | cut -c1-200)"
done
