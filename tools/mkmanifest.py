#!/usr/bin/env python3
"""writes MANIFEST.json from the list of implemented checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='No hooks in /repo: every check drives the public API of the headers in the working tree. Checks are checks/run.py ID; DESIGN.md describes them.')
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py %s quick' % i, thorough_cmd='python3 checks/run.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
