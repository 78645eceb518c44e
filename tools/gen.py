"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, technique=technique,
                  note=note, observe=observe))


FEM = ['metku/framefem/framefem.py', 'metku/framefem/elements/ebbeam.py',
       'metku/framefem/elements/eb_semi_rigid_beam.py',
       'metku/framefem/elements/rod.py', 'metku/framefem/elements/springs.py']

exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']],
                        'observe_at': p['observe'] or
                        'return values and public attributes of the API',
                        'hook_needed': None}}) + '\n')
checks = []
for p in P:
    if not os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
        print('no check for', p['id'])
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bash run.sh {p["id"]} --tier quick',
        'thorough_cmd': f'bash run.sh {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': p['technique'], 'level': 'exploration',
        'level_note': p['note']})
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
       'not_applicable': NOT_APPLICABLE}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
