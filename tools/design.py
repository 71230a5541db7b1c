"""fills tools/design.in (seeded table, not-applicable list, later properties) into DESIGN.md"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/design.in').read()
s = ['| bug | property | needs | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); s.append('| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
man = json.load(open(V + '/MANIFEST.json'))
na = ['* %s: %s' % (x['property'] if 'property' in x else x.get('id'), x['reason']) for x in man.get('not_applicable', [])] or ['(none listed at present)']
f = V + '/tools/later.in'
later = open(f).read() if os.path.exists(f) else ''
for k, v in (('@@SEEDS@@', '\n'.join(s)), ('@@NA@@', '\n'.join(na)), ('@@LATER@@', later)): t = t.replace(k, v)
open(V + '/DESIGN.md', 'w').write(t)
