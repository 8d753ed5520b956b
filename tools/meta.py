"""Source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py writes both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'cdmir/graph/'
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, technique, note, hook=None):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
               anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)),
        technique=technique, note=note))


MERGE = 'merging symbolic execution of the Python source + SAT (z3)'
FORK = 'path-forking symbolic execution of the running code + SMT (z3)'

exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x['p']) + '\n')
    for x in NA:
        f.write(json.dumps(x['p']) + '\n')

m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=x['p']['id'], quick_cmd='./check %s quick' % x['p']['id'],
                      thorough_cmd='./check %s thorough' % x['p']['id'], technique=x['technique'], level='other',
                      level_note=x['note']) for x in P],
         not_applicable=[dict(property=x['p']['id'], reason=x['reason']) for x in NA])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
for x in P + NA:
    assert len(x['p']['title']) <= 80, x['p']['title']
    assert x['p']['statement'].count('. ') <= 2, x['p']['id']
print(len(P), 'claimed', len(NA), 'not applicable')
