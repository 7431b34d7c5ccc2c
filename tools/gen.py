#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py.  A property is claimed when checks/<id>.py exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
NOTE = ('Bounded: the whole program (LLVM IR of /repo/src, rebuilt each run) is executed symbolically on the source templates of the check with every value of their symbolic parts; '
        'z3 decides each obligation on each path. Beyond the templates and their sizes (see BOUNDS/OUTSIDE in checks/%s.py and the evidence) nothing is claimed.')
rows, checks, na = [], [], []
for p in PROPS:
    rows.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['obs'], hook_needed=None)))
    assert len(p['title']) <= 80, p['title']
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                           technique='symbolic execution of the program\'s LLVM IR with z3 deciding assertions over its symbolic outputs; counterexamples replayed on the native binary',
                           level='model_checking', level_note=NOTE % p['id'].lower() + (' ' + p['note'] if p['note'] else '')))
    else:
        na.append(dict(property=p['id'], reason='check not built yet'))
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
m = dict(version=1, setup_cmd='python3-vt -c "import sys; sys.path.insert(0, \'lib\'); import sx; sx.build_engine()"',
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
