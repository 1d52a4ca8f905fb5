"""single source of properties.jsonl and MANIFEST.json: run `python3 meta/table.py` after editing"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, thorough=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, thorough=thorough))


exec(open(os.path.join(V, 'meta', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py >/dev/null || true', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        c = {'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} quick",
             'technique': p['technique'], 'level': 'other', 'level_note': p['note']}
        if p['thorough']:
            c['thorough_cmd'] = f"python3 check.py {p['id']} thorough"
        m['checks'].append(c)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
