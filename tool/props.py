#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (one place to keep them in step)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tool'))
from proptext import PROPS, NOT_APPLICABLE

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
    for p in NOT_APPLICABLE:
        d = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

man = {
    'version': 1,
    'setup_cmd': 'bash tool/build.sh && python3 -c "import sys; sys.path.insert(0, \'.\'); from sa import build; build.model()"',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
    'notes': 'Static analysis over LLVM IR rebuilt from /repo on every run; no hooks in /repo are needed. See DESIGN.md.',
}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'claimed,', len(NOT_APPLICABLE), 'not applicable')
