#!/bin/bash
# tools/fulltest.sh <id>: builds and runs the stable tests with a planted change, in a private mount namespace (a scratch copy is bound over /repo there; /repo itself is untouched)
id=$1; S=/verif/seeded/$id; W=/tmp/full_$id
rm -rf "$W"; cp -a /repo "$W"; git -C "$W" apply $S/patch.diff || { echo "$id patch does not apply"; rm -rf "$W"; exit 1; }
unshare -Urm bash -c "mount --bind $W /repo && bash /opt/vp/test.sh /tmp/full_$id.json" > /tmp/full_$id.log 2>&1
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/full_%s.json'%sys.argv[1]))
st=b.get('passed') or b.get('stable') or b
st=set(st if isinstance(st,list) else [x for v in st.values() if isinstance(v,list) for x in v])
print(sys.argv[1],'tests: stable %d, failing now %d' % (len(st), len(st-set(r['passed']))), sorted(st-set(r['passed']))[:3])
P
rm -rf "$W" /tmp/full_$id.log /tmp/full_$id.json
