#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the rule registry."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, '..', 'rules'), os.path.join(H, '..', 'lib')]
sys.dont_write_bytecode = True
from props import PROPS
from registry import REGISTRY
V = os.path.join(H, '..')
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'], anchors=dict(
                     files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                     mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                     observe_at=p.get('observe', []), hook_needed=None))
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o) + '\n')
        if p.get('na'):
            na.append(dict(property=p['id'], reason=p['na']))
            assert p['id'] not in REGISTRY, p['id']
        else:
            assert p['id'] in REGISTRY, p['id']
            checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
                               thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                               technique=p['technique'], level='other', level_note=p['note']))
assert {p['id'] for p in PROPS} >= set(REGISTRY), set(REGISTRY) - {p['id'] for p in PROPS}
m = dict(version=1, setup_cmd='python3 lib/prepare.py', checks=checks, not_applicable=na,
         notes='All checks analyse the sources of /repo as they are; nothing of it is executed. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
