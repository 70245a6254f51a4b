import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + '/meta'); sys.path.insert(0, R + '/sa')
from props import P
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=[], hook_needed=None))) + '\n')
M = dict(version=1, setup_cmd='python3 sa/check.py --setup', checks=[], not_applicable=[])
for p in P:
    if p.get('na'): M['not_applicable'].append(dict(property=p['id'], reason=p['na'])); continue
    M['checks'].append(dict(property=p['id'], quick_cmd='python3 sa/check.py ' + p['id'], thorough_cmd='python3 sa/check.py ' + p['id'], evidence_file='evidence/%s.json' % p['id'],
                            technique=p['technique'], level='other', level_note=p['note']))
json.dump(M, open(R + '/MANIFEST.json', 'w'), indent=1)
from registry import PROPS
ids = {p['id'] for p in P if not p.get('na')}
print('claimed', len(ids), 'unregistered', ids - set(PROPS), 'unclaimed', set(PROPS) - ids)
