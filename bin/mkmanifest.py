#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=c.get('technique', 'TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC'),
                           level=c.get('level', 'model_checking'), level_note=c['note']))
m = dict(version=1, setup_cmd='bash bin/setup.sh',
         checks=checks,
         not_applicable=[dict(property=i, reason='check under construction') for i in ids if i not in PROPS],
         notes='TLA+/TLC; see DESIGN.md. No hooks in /repo are needed: everything is observed through the public API.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
