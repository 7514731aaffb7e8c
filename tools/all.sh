#!/bin/bash
# tools/all.sh [ids]: every check on the current tree, strictly (an undecided entry counts as failure)
cd /verif; for c in ${*:-$(ls checks | grep -o '^C[0-9]*')}; do VF_STRICT=1 timeout 880 python3 check.py $c > /tmp/all_$c.out 2>&1; echo "$? $(grep -vE '^ ' /tmp/all_$c.out | tail -1 | cut -c1-180)"; done
