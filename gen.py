#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import props

TECH = 'abstract interpretation of the type-checked MIR: '
NOTE = ('Every obligation is discharged for all inputs by abstract interpretation of the MIR rustc produces from the '
        'current tree; trusts rustc, the analyser and its models of bytes/core/alloc.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NA:
        f.write(json.dumps({
            'id': p.id, 'title': p.title, 'statement': p.statement,
            'quantifier': {'over': p.over, 'text': p.quant}, 'why_tests_cant': p.why,
            'anchors': {'files': p.anchors, 'mechanism': p.mech},
        }) + '\n')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p.id, 'quick_cmd': './check.py %s' % p.id, 'thorough_cmd': './check.py %s --thorough' % p.id,
        'technique': TECH + p.tech, 'level': p.level, 'level_note': p.note or NOTE} for p in props.PROPS],
    'not_applicable': [{'property': p.id, 'reason': p.na} for p in props.NA],
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
