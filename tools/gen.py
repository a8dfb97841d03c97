#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props import PROPS, NA, NOTES
from checks import CHECKS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))
        if 'observe' in p:
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 run.py setup',
         checks=[dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
                      technique='symbolic execution of the compiled LLVM IR of /repo (vsym), branches and assertions decided by z3',
                      level='model_checking',
                      level_note='Bounded: ' + CHECKS[p['id']]['bounds'] + '. Trusted: the IR emitted by rustc, vsym, z3, the model of the operating system in guest/src/kernel.rs; sequentially consistent memory.')
                 for p in PROPS if p['id'] in CHECKS],
         not_applicable=[dict(property=a, reason=b) for a, b in NA], notes=NOTES)
ids = {p['id'] for p in PROPS}
assert set(CHECKS) | {a for a, b in NA} == ids, (set(CHECKS) ^ ids)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
