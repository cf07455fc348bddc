#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
from props import PROPS, NA, TECH
S = 'sparta/sparta/'


def expand(f):
    return f if f.startswith('sparta/') else 'sparta/' + f if f.startswith('src/') else S + f


def main():
    with open('properties.jsonl', 'w') as fh:
        for p in PROPS + NA:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': [expand(f) for f in p['files']],
                             'mechanism': [{'name': a, 'where': expand(b)} for a, b in p['mech']]}}
            if p.get('observe'):
                d['anchors']['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'],
                     'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH[p.get('tech', 'path')], 'level': 'other',
                     'level_note': p['note']} for p in PROPS],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
         'notes': 'Every check re-extracts the type-checked program from /repo and analyses it; nothing of /repo is executed. See DESIGN.md.'}
    with open('MANIFEST.json', 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
