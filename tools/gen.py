"""Writes properties.jsonl and MANIFEST.json from one table.

    python3 tools/gen.py

A property is claimed when checks/<id>.py exists; the others are listed under
not_applicable with the reason given here.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC = 'badidatetime/badi_calendar.py'
BASE = 'badidatetime/base_calendar.py'
GC = 'badidatetime/gregorian_calendar.py'
DT = 'badidatetime/datetime.py'
TD = 'badidatetime/_timedateutils.py'
SP = 'badidatetime/_strptime.py'
ST = 'badidatetime/_structures.py'
INI = 'badidatetime/__init__.py'
AT = 'badidatetime/_astronomical_terms.py'
CO = 'badidatetime/_coefficients.py'

# id, title, statement, over, quantifier text, why tests can't, files,
# mechanism [(name, where)], level note
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, tech=None,
         reason='not built yet'):
    P.append(dict(id=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, note=note,
                  tech=tech, reason=reason))


EXH = 'explicit-state exhaustive exploration of the real code against a ' \
      'reference model'

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']],
                        'observe_at': ['public API'],
                        'hook_needed': None}}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
        checks.append({
            'property': p['id'],
            'quick_cmd': f"python3 checks/{p['id']}.py --tier quick",
            'thorough_cmd': f"python3 checks/{p['id']}.py --tier thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': p['tech'] or EXH,
            'level': 'model_checking', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py',
               'checks': checks, 'not_applicable': na,
               'notes': 'No hooks: every check drives the unmodified package '
               'in /repo (imported from the working tree, no build output '
               'is used). See DESIGN.md.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
