#!/bin/bash
# run all quick checks for the given seeds: tools/each.sh "1 2 3" [check...]
cd "$(dirname "$0")/.."
seeds=$1; shift
for c in ${@:-$(ls checks | grep -o 'C[0-9]*')}; do for s in $seeds; do
  out=$(VERIF_SEED=$s ./run.sh $c 2>&1); rc=$?
  [ $rc = 0 ] && echo "$c seed $s ok $(echo "$out" | grep -o '[0-9.]* s$' | tail -1)" || { echo "$c seed $s EXIT $rc"; echo "$out" | head -20; }
done; done
