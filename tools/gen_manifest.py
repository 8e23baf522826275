#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'the harness deciding it is not part of this state of the framework yet'})
m['notes'] = 'Checks compile the harness sources against /repo/include on every run; nothing is cached between runs. No hooks are needed in /repo.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schema ok', len(m['checks']), 'checks')
except ImportError:
    print(len(m['checks']))
