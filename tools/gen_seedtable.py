"""Seeded-change table for DESIGN.md: every folder of seeded/ with what it needs; caught-by from seeded_results.txt"""
import json, os
V = '/verif'
res = dict(l.split(None, 1) for l in open(V + '/seeded_results.txt') if l.strip())
print('| change | property | what it breaks | result |\n|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    print('| %s | %s | %s (%s) | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], res.get(d, 'not run').strip()))
