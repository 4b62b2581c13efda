#!/bin/bash
# All checks with several seeds: soak.sh "SEEDS" [ID...]; prints what is not OK.
cd "$(dirname "$0")/.."
seeds=$1; shift
ids=${*:-$(seq -f C%02g 24)}
for s in $seeds; do
  for c in $ids; do
    out=$(./check.sh $c --seed $s 2>&1); rc=$?
    [ $rc = 0 ] || { echo "== $c seed $s rc $rc"; echo "$out" | tail -15; }
  done
  echo "seed $s done"
done
