#!/bin/bash
# mut.sh <check> <header> <old> <new>: run a check against a copy of /repo with one text replaced
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/include /repo/.git $d/
python3 - "$d/include/mimic++/$2" "$3" "$4" <<'P' || exit 3
import sys
p,o,n=sys.argv[1:]; s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
if s.count(o)<1: sys.exit('not found')
open(p,'w').write(s.replace(o,n,1))
P
cd /verif; for c in $1; do VF_REPO=$d python3 check.py $c > $d/out 2>&1; echo "exit $? $(grep -cE '^VIOLATION' $d/out) violations"; grep -E "^(VIOLATION|UNDECIDED|BROKEN)|error" $d/out | cut -c1-${W:-200} | head -${L:-4}; done
rm -rf $d
