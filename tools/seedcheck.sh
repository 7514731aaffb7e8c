#!/bin/bash
# tools/seedcheck.sh [seed ids]: the check of a seed's property on a patched copy of the library (does not touch /repo)
cd /verif; for i in ${*:-$(ls seeded)}; do d=/tmp/sc_$i; rm -rf /tmp/sc_$i; mkdir $d; cp -a /repo/include $d/; (cd $d && git init -q . >/dev/null 2>&1; git apply --unsafe-paths /verif/seeded/$i/patch.diff) || { echo "$i patch fails"; continue; }
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])"); s=$(date +%s); VF_REPO=$d timeout 880 python3 check.py $p > /tmp/sc_$i.out 2>&1; echo "$i $p exit $? $(( $(date +%s)-s )) s $(grep -c UNDECIDED /tmp/sc_$i.out) undecided"; rm -rf /tmp/sc_$i; done
