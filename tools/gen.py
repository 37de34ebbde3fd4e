#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from catalog import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quantifier']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'none', 'enable': 'No hooks are committed to the repository: the harness compiles instrumented copies of the current sources (loop and call budget; scheduling points for the concurrency checks) through go build -overlay.', 'source_commits': []},
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s quick' % p['id'],
        'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    } for p in PROPS if p['id'] not in na],
    'not_applicable': NOT_APPLICABLE,
    'notes': NOTES,
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
