#!/usr/bin/env python3
"""tools/gen.py: writes properties.jsonl and MANIFEST.json from tools/props_data.py; a property is claimed if props/cNN.py exists"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import P
claimed, na = [], []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif not os.path.exists(os.path.join(root, 'props', p['id'].lower() + '.py')):
            na.append(dict(property=p['id'], reason='check not built yet'))
        else:
            claimed.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                                technique=p['technique'], level='model_checking', level_note=p['note'], evidence_file='evidence/%s.json' % p['id']))
m = dict(version=1, setup_cmd='./setup.sh', checks=claimed, not_applicable=na)
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(claimed), 'claimed', len(na), 'not applicable')
