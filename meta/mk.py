"""Writes properties.jsonl and MANIFEST.json from the entries below (single source, kept in step)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique='', note=''):
    P.append({'id': id, 'title': title, 'statement': statement, 'over': over, 'text': text, 'why': why, 'files': files,
              'mech': mech, 'observe': list(observe), 'technique': technique, 'note': note})


exec(open(os.path.join(HERE, 'entries.py')).read())  # noqa: S102

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')

have = {os.path.basename(g)[:3].upper() for g in glob.glob(os.path.join(ROOT, 'props', 'c*.py'))}
checks, na = [], []
for p in P:
    if p['id'] in have:
        checks.append({'property': p['id'], 'quick_cmd': f'./check {p["id"]} quick', 'thorough_cmd': f'./check {p["id"]} thorough',
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: the checks drive the public API of the working tree. Replay a failure with ./replay <path>.'}, f, indent=1)
print(len(P), 'properties', len(checks), 'checks')
