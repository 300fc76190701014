#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a checks/<id>.py is
claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(line)['id'] for line in open(os.path.join(V, 'properties.jsonl'))]
TECH = {}
NOTE = {}
DEF_TECH = ('TLA+ specification checked with TLC; conformance of the code by '
            'replay of TLC behaviours and TLC judging recorded executions')
DEF_NOTE = ('exhaustive on the model within small constants; the code is bound '
            'to it on the behaviours replayed and the executions recorded '
            '(seeded), through the public API')
exec(open(os.path.join(V, 'tools', 'manifest_notes.py')).read())
NA = {}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append({'property': i,
                       'quick_cmd': 'python3 checks/%s.py' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH.get(i, DEF_TECH),
                       'level': 'model_checking',
                       'level_note': NOTE.get(i, DEF_NOTE)})
    else:
        na.append({'property': i,
                   'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
