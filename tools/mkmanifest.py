#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 vp.py --setup', checks=[], not_applicable=[])
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 vp.py %s --tier quick' % i, thorough_cmd='python3 vp.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=c.get('technique', 'bounded symbolic execution of the compiled LLVM IR, decided by Z3, counterexamples replayed natively'), level='model_checking', level_note=c.get('note') or c['bounds']))
    else: m['not_applicable'].append(dict(property=i, reason=checks.NA.get(i, 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
