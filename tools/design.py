#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.md.in, the checks, known_findings.json and the planted bugs' descriptions."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'lib'), os.path.join(V, 'checks')]
import importlib
from props import PROPS
import design_notes as N
out = open(os.path.join(V, 'tools', 'design.md.in')).read()
t = ''
for p in PROPS:
    m = importlib.import_module(p['id'].lower())
    t += '### %s %s\n\n%s\n\n- *For all values of*: %s.\n- *Outside*: %s.\n- *Oracle*: %s\n- *Quick*: %s\n\n' % (p['id'], p['title'], p['statement'], m.BOUNDS, m.OUTSIDE, N.ORACLE[p['id']], 'about %s s on 8 cores' % N.COST[p['id']])
kf = json.load(open(os.path.join(V, 'known_findings.json')))
fx = ''.join('- %s (%s): %s\n' % (e['property'], e['id'][4:], e['what'].split(' ', 3)[3]) for e in kf if e.get('status') == 'fixed')
kn = ''.join('- %s `%s`: %s\n' % (e['property'], e['id'], e['what']) for e in kf if e.get('status') != 'fixed')
b = ''
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    s = os.path.basename(d)
    j = json.load(open(d + '/meta.json'))
    b += '- `%s`%s (%s): %s; needs %s\n' % (s, '*' if s in N.MISSED else '', j['property'], j['what_it_breaks'].strip().rstrip('.'), j['needs'].strip().rstrip('.'))
for k, v in (('@PROPERTIES@', t), ('@FIXES@', fx), ('@KNOWN@', kn), ('@BUGS@', b)):
    out = out.replace(k, v.rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
