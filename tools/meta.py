#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property descriptions in tools/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE      # noqa: E402

V = os.path.dirname(HERE)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NOT_APPLICABLE:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p.get('observe', []), 'hook_needed': 'none'}}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3 -m compileall -q ksa checks check.py',
         'checks': [{'property': p['id'],
                     'quick_cmd': 'python3 check.py %s' % p['id'],
                     'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']}
                    for p in PROPS],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
         'notes': 'All checks read the Python sources of /repo (no import, no execution) on every '
                  'run; findings accepted as genuine and unrepaired are in known_findings.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
