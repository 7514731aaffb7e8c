#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the modules under checks/ (their TECHNIQUE/NOTE, NA reasons below)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
IRX = 'abstract interpretation of the LLVM IR of /repo headers (own analyser irx: interval/zone domain, array summaries, exception edges)'
TYP = 'type-level witnesses: static_assert and must-be-rejected compile witnesses decided by the compiler front end'
IRX_NOTE = ('Every obligation holds on all abstract paths of the harness entries, which quantify over arbitrary inputs and, where stated, collections of arbitrary '
            'length; sound for the modelled subset of LLVM IR (unmodelled constructs stop the analysis and are reported as UNDECIDED). Trusts clang\'s lowering, the analyser and its models of '
            'library calls (allocation, mutex, formatting).')
TYP_NOTE = 'The enumerated witnesses cover the listed type families completely; trusts the compiler front end. Types outside the enumerated families are not covered.'
NA = {
    'C29': 'linearizability of histories over all thread schedules: the accept decision and the count update are separate critical sections by design, and no static argument in reach bounds the interleavings',
    'C30': 'depends on the contents of the Unicode tables and on an external library (uni-algo) that is not available in this environment',
}
PENDING = 'no sound static check built for it yet'
meta = {
    'C11': ('type', ''), 'C16': ('type', ''), 'C22': ('type', ''), 'C23': ('type', ''), 'C27': ('type', ''),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)):
        m = importlib.import_module('checks.' + i)
        kind = getattr(m, 'KIND', meta.get(i, ('irx',))[0])
        tech = {'irx': IRX, 'type': TYP, 'both': IRX + '; ' + TYP}[kind]
        note = {'irx': IRX_NOTE, 'type': TYP_NOTE, 'both': IRX_NOTE + ' ' + TYP_NOTE}[kind]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='other', level_note=(getattr(m, 'NOTE', '') + ' ' + note).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd='make -C irx -j8', checks=checks, not_applicable=na,
               notes='Nothing in /repo is instrumented; the checks read /repo/include only. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
