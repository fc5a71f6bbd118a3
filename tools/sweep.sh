#!/bin/bash
# sweep.sh "PIDS" "SEEDS": run each check at each seed, print what is not OK
cd /verif
for p in $1; do for s in $2; do
 o=$(VERIF_SEED=$s timeout 900 ./run.py $p 2>&1); rc=$?
 [ $rc = 0 ] || { echo "== $p seed $s rc $rc"; echo "$o" | grep -a "VIOLATION\|INCONCL\|BUILD\|error" | head -5; }
done; done; echo sweep done
