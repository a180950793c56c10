#!/bin/bash
# tools/seeds.sh "C01 C02" "2 3 4": run checks on several seeds, print only what is not silent
cd "$(dirname "$0")/.."
for p in $1; do for s in $2; do
  t=$(VERIF_SEED=$s ./check.sh $p 2>&1); r=$?
  [ $r = 0 ] || echo "$p seed $s rc=$r: $(echo "$t" | cut -c1-700 | head -3)"
done; done; echo done
