#!/usr/bin/env python3
"""fills the generated sections of DESIGN.md from DESIGN.in.md"""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import P
import bounds_data
t = []
for p in P:
    t.append('**%s %s.** ' % (p['id'], p['title']) + bounds_data.B.get(p['id'], ('Not applicable: ' + p['na']) if p['na'] else 'check not built yet') + '\n')
k = []
kf = json.load(open(os.path.join(root, 'known_findings.json')))
for f in kf['findings']:
    k.append('* recorded, not repaired: property %s: %s' % (f['property'], f['what']))
s = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
try:
    caught = json.load(open(os.path.join(root, 'tools', 'caught.json')))
except FileNotFoundError:
    caught = {}
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    s.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], caught.get(n, '?')))
x = open(os.path.join(root, 'tools', 'DESIGN.in.md')).read()
x = x.replace('@@TABLE@@', '\n'.join(t)).replace('@@KNOWN@@', '\n'.join(k)).replace('@@SEEDED@@', '\n'.join(s))
open(os.path.join(root, 'DESIGN.md'), 'w').write(x)
