#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'lib')]
import props, registry

def where(x):
    n, w = x.split('@')
    return dict(name=n.strip(), where=w.strip())

checks, na, lines = [], [], []
for p in props.P:
    d = dict(id=p['id'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[where(m) for m in p['mech']], observe_at=p['observe'],
                          hook_needed=None))
    lines.append(json.dumps(d))
    if 'na' in p:
        assert p['id'] not in registry.CHECKS, p['id']
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        assert p['id'] in registry.CHECKS, p['id']
        checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                           technique=p['tech'], level='other', level_note=p['note']))
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=props.NOTES),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
