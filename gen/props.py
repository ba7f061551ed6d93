#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
run: python3 gen/props.py      (claims every property that has a harness props/<ID>.cpp)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, design, level_note, state=None, level='model_checking', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  design=design, level_note=level_note, state=state, level=level, technique=technique))
NA = {}
exec(open(f'{V}/gen/catalog.py').read())
P.sort(key=lambda p: p['id'])
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['id'] in NA: na.append({'property': p['id'], 'reason': NA[p['id']]}); continue
    if not os.path.exists(f"{V}/props/{p['id']}.cpp"): na.append({'property': p['id'], 'reason': 'no check built yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': f"python3 run.py {p['id']}", 'thorough_cmd': f"python3 run.py {p['id']} --thorough",
        'technique': p['technique'] or 'explicit-state bounded exhaustive exploration of the real code by depth-first re-execution, against an independent reference model',
        'level': p['level'], 'level_note': p['level_note']})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --selftest', 'checks': checks, 'not_applicable': na,
    'notes': 'Every check compiles props/<ID>*.cpp against the headers of /repo as they are and explores all choice sequences of its scenarios; see DESIGN.md.'},
    open(f'{V}/MANIFEST.json', 'w'), indent=1)
d = open(f'{V}/DESIGN.md').read() if os.path.exists(f'{V}/DESIGN.md') else '<!-- BEGIN PROPERTIES -->\n<!-- END PROPERTIES -->\n'
body = ''
for p in P:
    body += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*How it is decided.* {p['design']}\n\n*Bounds and assurance.* {p['level_note']}\n\n"
d = re.sub(r'<!-- BEGIN PROPERTIES -->.*<!-- END PROPERTIES -->', lambda m: '<!-- BEGIN PROPERTIES -->\n' + body + '<!-- END PROPERTIES -->', d, flags=re.S)
open(f'{V}/DESIGN.md', 'w').write(d)
print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])
