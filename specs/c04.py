"""C04 the destination may be one of the inputs"""
import itertools
from engine import dag as D, build as B, pairs, runner, prove as V
CFGS = ['scalar', 'sse2', 'sse3', 'sse4', 'avx', 'fma', 'neon', 'neon32', 'wasm']
SCFGS = ['scalar', 'sse2', 'fma', 'neon']
ASSUME = ['the call with a shared object is compared with the call whose destination is a separate object initially holding the same values',
          'floating point is interpreted as exact real arithmetic only where the two encodings are not the same expression']
CALIGN = {'versor': 'vec4', 'mat2': 'mat2'}
# (function, destination, input): written piecewise before everything is read, on the tree this check was written for
EXCEPT = {('glm_decompose', 'r', 'm'), ('glm_decompose_rs', 'r', 'm')}
import json
FRAME = json.load(open(B.VERIF + "/frame.json"))
DESTS = {n: {p for t in f.values() for p, ch in t.items() if ch} for n, f in FRAME.items()}
def shape(p): return (p['n'], p['ty'], CALIGN.get(p['type'], p['type']), p['ptr'], p['arr'])
def cases(n, written):
    """(alias map, name) for every way of passing the destination object as inputs too"""
    f = B.API[n]; ps = [p for p in f['params'] if p['kind'] == 'obj' and not p.get('byval') and p['n'] > 0]
    order = [p['name'] for p in f['params']]
    for d in ps:
        if d['name'] not in written: continue
        ins = [p for p in ps if p['name'] not in written and shape(p) == shape(d)]
        for p in ins: yield (d['name'], (p['name'],))
        for k in range(2, len(ins)+1):
            for c in itertools.combinations(ins, k): yield (d['name'], tuple(p['name'] for p in c))
def amap(n, d, ins):
    """alias map with the first parameter of the group as the object"""
    g = [p['name'] for p in B.API[n]['params'] if p['name'] == d or p['name'] in ins]
    return {x: g[0] for x in g[1:]}, g
def run(chk):
    chk.level = 'translation_validation'
    names = [n for n in B.API if n.startswith('glm_')]; snames = [n for n in B.API if n.startswith('glms_') and n in DESTS and any(True for _ in cases(n, DESTS[n]))]
    mods, libs, errs = runner.compile_all(CFGS, names)
    smods, slibs, serrs = runner.compile_all(SCFGS, snames, struct=True, tag='s'); errs.update({'struct ' + k: v for k, v in serrs.items()})
    both = (mods, libs), (smods, slibs)
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    if not mods: raise SystemExit('nothing builds: %s' % errs)
    chk.info['configurations'] = list(mods)
    have = B.source_names(); jobs = {}; ncase = 0; exc = []
    for n in names + snames:
        mods, libs = both[n.startswith('glms_')]
        if n not in have or 'arr_len' in n: continue
        written = DESTS.get(n)
        if not written: continue
        for d, ins in cases(n, written):
            if any((n, d, i) in EXCEPT or (n, d, '*') in EXCEPT for i in ins): exc.append('%s %s=%s' % (n, d, '='.join(ins))); continue
            al, g = amap(n, d, ins); ncase += 1
            def mk(c, k, n=n, d=d, ins=ins, al=al, g=g, mods=mods, libs=libs):
                def f():
                    if n not in mods[c].names: raise V.Skip('not in this configuration')
                    nn = next(p for p in B.API[n]['params'] if p['name'] == d)['n']; ty = next(p for p in B.API[n]['params'] if p['name'] == d)['ty']
                    # everything in the group starts with the same contents
                    pin = {(x, i): D.var(B.cellname(g[0], i), ty) for x in g[1:] for i in range(nn)}
                    pm = [(p['name'], p['name']) for p in B.API[n]['params'] if p['name'] not in ins] 
                    s = pairs.PairSpec('%s(%s=%s)%s %s' % (n, d, '='.join(ins), ''.join(' %s=%d' % z for z in k.items()), c), pairs.Side(c, n, mods[c], libs.get(c), consts=k), pairs.Side(c, n, mods[c], libs.get(c), consts=k, alias=al), pm, pin)
                    return s
                return f
            jobs.update(pairs.split('%s(%s=%s)' % (n, d, '='.join(ins)), mk, list(mods), pairs.control(n)))
    chk.info['functions'] = len(jobs); chk.info['excluded'] = exc
    pairs.run_jobs(chk, jobs, rounding=False)
