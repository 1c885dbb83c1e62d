#!/usr/bin/env python3
"""Development time only: derives /verif/frame.json, the cells each function may change, from the scalar build; prints
disagreements with the other builds and with the headers' @param[in]/[out] documentation for review by hand."""
import sys, os, re, json
sys.path.insert(0, '/verif')
from engine import build as B, dag as D, pairs, symex
def pointers(n): return any(p['kind'] == 'obj' and not p.get('byval') for p in B.API[n]['params'])
names = [n for n in B.API if n.startswith('glm_') or n.startswith('glms_') and pointers(n) and not n.endswith('pack')]
docs = {}
for root, _, fs in os.walk(B.INC + '/cglm'):
    if 'struct' in root or 'call' in root: continue
    for f in fs:
        t = open(os.path.join(root, f)).read()
        for m in re.finditer(r'/\*!(.*?)\*/\s*CGLM_INLINE\s+[\w\s\*]*?\b(glm_\w+)\s*\(', t, re.S):
            docs[m.group(2)] = {b: a.replace(' ', '') for a, b in re.findall(r'@param\[([^\]]*)\]\s+(\w+)', m.group(1))}
def frame(mod, n, k):
    r = B.symrun(mod, n, k, loop_bound=12)
    if r.dead: return None
    o = {}
    for nm, cells in r.out.items():
        ch = [i for i, (a, b) in enumerate(zip(cells, r.inputs[nm])) if a is not b]
        o[nm] = ch
    return o
mods = {c: B.load(c, names, True) for c in sys.argv[1:] or ['scalar', 'sse2', 'neon']}
out = {}
for n in names:
    for k in pairs.control(n):
        key = ','.join('%s=%d' % z for z in k.items()); ref = None
        for c, m in mods.items():
            if n not in m.names: continue
            try: f = frame(m, n, k)
            except symex.Unsupported as e: print('UNSUP', n, c, e); continue
            if f is None: continue
            if ref is None: ref = f
            elif ref != f: print('DIFF', n, key, c, {p: (ref[p], f[p]) for p in f if f[p] != ref[p]})
        if ref is None: continue
        out.setdefault(n, {})[key] = ref
        for p, ch in ref.items():
            d = docs.get(n, {}).get(p)
            if d == 'in' and ch or d in ('out', 'in,out') and not ch: print('DOC', n, p, d, ch)
json.dump(out, open(os.environ.get('OUT', '/verif/frame.json'), 'w'), indent=0, sort_keys=True)
print(len(out))
