#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in: lists of seeds, mutants and properties that are not claimed."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/DESIGN.in').read()
m = json.load(open(V + '/MANIFEST.json'))
title = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
s = s.replace('@NA@', '\n'.join('* **%s %s**: %s' % (x['property'], title[x['property']], x['reason']) for x in m['not_applicable']))
r = ['| seed | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d))
    r.append('| %s | %s | %s |' % (d.split('/')[-2], j['property'], j['needs']))
s = s.replace('@SEEDS@', '\n'.join(r))
r = ['| check | breaking | preserving |', '|---|---|---|']
for f in sorted(glob.glob(V + '/mutants/*.mut')):
    t = open(f).read()
    r.append('| %s | %d | %d |' % (os.path.basename(f)[:-4].upper(), len(re.findall(r'^=== .*expect 1', t, re.M)), len(re.findall(r'^=== .*expect 0', t, re.M))))
s = s.replace('@MUT@', '\n'.join(r))
open(V + '/DESIGN.md', 'w').write(s)
