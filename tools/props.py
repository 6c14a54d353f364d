#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

D = 'distributed_vector_ole/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, level='other', note='', na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  tech=tech, level=level, note=note, na=na, observe=observe or []))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_data.py')).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': [D + x for x in p['files']],
                            'mechanism': [{'name': n, 'where': D + w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                           'thorough_cmd': './check ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo. See DESIGN.md.'},
              open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')


main()
