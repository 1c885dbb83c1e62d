#!/usr/bin/env python3
"""Development time only: derives /verif/outonly.json, the parameters whose earlier contents no result depends on."""
import sys, os, json
sys.path.insert(0, '/verif')
from engine import build as B, dag as D, pairs
names = [n for n in B.API if not n.startswith('glmc_')]
m = B.load('scalar', names, True); out = {}
for n in sorted(m.names):
    for k in pairs.control(n):
        r = B.symrun(m, n, k, loop_bound=12)
        if r.dead: continue
        oo = []
        for p, cells in r.out.items():
            ch = [i for i, (a, b) in enumerate(zip(cells, r.inputs[p])) if a is not b]
            if not ch: continue
            mine = {c.id for c in r.inputs[p]}
            dep = any(z.id in mine for q, l in r.out.items() for i, x in enumerate(l) if q != p or i in ch for z in D.postorder([x]))
            if r.retnode is not None: dep = dep or any(z.id in mine for z in D.postorder([r.retnode]))
            if not dep: oo.append(p)
        out.setdefault(n, {})[','.join('%s=%d' % z for z in k.items())] = sorted(oo)
json.dump(out, open(os.environ.get('OUT', '/verif/outonly.json'), 'w'), indent=0, sort_keys=True)
for n, f in out.items():
    w = [p['name'] for p in B.API[n]['params'] if p['kind'] == 'obj' and p['name'] in ('dest', 'ret__')]
    for p in w:
        if not all(p in l for l in f.values()): print(n, p)
