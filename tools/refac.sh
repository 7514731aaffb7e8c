#!/bin/bash
# tools/refac.sh <repo copy> [ids]: every check on a copy of the library, strictly; prints those that are not quiet
d=$1; shift; cd /verif; for c in ${*:-$(ls checks | grep -o '^C[0-9]*')}; do VF_REPO=$d VF_STRICT=1 timeout 880 nice python3 check.py $c > /tmp/rf/$(basename $d)_$c.out 2>&1; r=$?; [ $r = 0 ] || { echo "$c exit $r"; grep -E 'VIOLATION|UNDECIDED' /tmp/rf/$(basename $d)_$c.out | head -5 | cut -c1-300; }; done; echo done
