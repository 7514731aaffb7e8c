#!/bin/bash
# tools/tryseed.sh <id> [full]: confirms a planted change in a scratch copy (demo on clean and patched tree, check verdict); "full" also builds and runs the tests in /repo (undone afterwards)
id=$1; S=/verif/seeded/$id; W=/tmp/seed_$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p "$W"; cp -a /repo/include /repo/.git "$W"/ ; (cd "$W"; git checkout -q -- . 2>/dev/null)
(cd "$W"; bash $S/demo.sh >/dev/null 2>&1); echo "$id demo clean: $?"
(cd "$W"; git apply $S/patch.diff) || { echo "$id patch does not apply"; exit 1; }
(cd "$W"; timeout 300 bash $S/demo.sh >/tmp/seed_$id.out 2>&1); echo "$id demo patched: $?"
(cd /verif; VF_REPO=$W python3 check.py $P > /tmp/seed_$id.chk 2>&1; echo "$id check $P: $?"; grep -v "^ " /tmp/seed_$id.chk | cut -c1-200 | head -5)
if [ "$2" = full ]; then
  git -C /repo apply $S/patch.diff; bash /opt/vp/test.sh /tmp/seed_$id.json >/tmp/seed_$id.tst 2>&1; git -C /repo checkout -q -- .
  python3 - /tmp/seed_$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
st=b.get('passed') or b.get('stable') or b
st=set(st if isinstance(st,list) else [x for v in st.values() if isinstance(v,list) for x in v])
print('tests: stable %d, failing now %d' % (len(st), len(st-set(r['passed']))))
P
fi
rm -rf "$W"
