#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))


TRUST = ' Trusted: rustc\'s MIR of the default feature set, the rule tables in engine/rules, and the stated assumptions in the evidence file.'

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['na'] or os.path.exists(os.path.join(HERE, 'engine', 'rules', p['id'].lower() + '.py')), p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3 -m engine.build',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': p['technique'], 'level': 'other', 'level_note': p['note'] + TRUST,
    } for p in P if not p['na']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
    'notes': 'Static analysis over the MIR of the current tree, dumped by a rustc driver (driver/) built by setup_cmd. No hooks in /repo.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks,', len(man['not_applicable']), 'not applicable')
