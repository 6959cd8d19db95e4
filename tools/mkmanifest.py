#!/usr/bin/env python3
"""Rewrites MANIFEST.json from tools/checks.py and tools/mkprops.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, mkprops
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='VERIF_MONITOR', enable='the harness builds pass -DVERIF_MONITOR; no hook in /repo uses it at present', source_commits=[]),
         checks=[], not_applicable=[],
         notes='Checks rebuild what they need from /repo\'s working tree (content-hash cache in .cache). tools/check.py runs the monitors of one property; harness/*.cpp are the monitors; shim/ stands in for Elements and Alexandria, which are not installed.')
for p in mkprops.P:
    i = p['id']
    if i in checks.PROPS:
        s = checks.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick', thorough_cmd=f'python3 tools/check.py {i} --tier thorough',
                                technique=s.get('technique', 'runtime monitoring: reference-model oracle over seeded random workloads, under AddressSanitizer/UBSan'),
                                level='exploration', level_note=s.get('note', 'Held on the executions explored; see evidence for counts. Trusts the harness oracle, the shim for Elements/Alexandria and gcc sanitizers.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=checks.NOT_CLAIMED.get(i, 'monitor not built yet')))
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
