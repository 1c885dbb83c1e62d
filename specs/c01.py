"""C01 compiled API equals the inline API (both encoded from the current tree, every output compared)"""
import concurrent.futures as cf
from engine import build as B, pairs, runner, replay, prove as V
from specs import c04
ASSUME = ['the two encodings are compared with floating-point operations uninterpreted first (bit-exact), then bit-precisely; integers that steer indexing are enumerated',
          'objects are disjoint, or the same object is passed on both sides alike (partial overlap is outside)']
ACFGS = ['scalar', 'sse2']
QUICK = ['scalar', 'sse2', 'fma', 'neon']
THOROUGH = ['scalar', 'sse2', 'sse3', 'sse4', 'avx', 'fma', 'unal', 'neon', 'neon32', 'wasm', 'sse2_lhzo', 'sse2_lhno', 'sse2_rhzo']
def kinds(ps): return [(p['kind'], p.get('n'), p['ty']) for p in ps]
def pmap(fc, fi):
    """by name where the names agree, by position otherwise"""
    pc, pi = B.API[fc]['params'], B.API[fi]['params']
    if kinds(pc) != kinds(pi): return None
    return [(c['name'], i['name']) for c, i in zip(pc, pi)]
def other(fc):
    fi = 'glm_' + fc[5:]
    return {'glm_vec3_mulv': 'glm_vec3_mul', 'glm_vec4_mulv': 'glm_vec4_mul', 'glm_mat4_inv_precise': 'glm_mat4_inv'}.get(fi, fi)
def run(chk):
    cfgs = QUICK if chk.tier == 'quick' else THOROUGH
    chk.level = 'translation_validation'
    names = [n for n in B.API if n.startswith('glm_')]
    with cf.ThreadPoolExecutor(12) as ex:
        fo = {c: ex.submit(B.load_call, c) for c in cfgs}
        fs = {c: ex.submit(replay.compile_call_so, c) for c in cfgs if B.CFG[c].native}
        mods, libs, errs = runner.compile_all(cfgs, names)
        owner, clib = {}, {}
        for c, f in fo.items():
            try: owner[c] = f.result()
            except B.BuildError as e: errs['call:' + c] = str(e)
        for c, f in fs.items():
            try: clib[c] = f.result()
            except B.BuildError as e: errs['callso:' + c] = str(e)
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    cfgs = [c for c in cfgs if c in mods and c in owner]
    if not cfgs: raise SystemExit('nothing builds: %s' % errs)
    chk.info['configurations'] = cfgs
    have = B.source_names(); jobs = {}; skipped = []
    for n in sorted(B.API):
        if not n.startswith('glmc_'): continue
        i = other(n)
        if n not in have or i not in B.API or i not in have: skipped.append(n); continue
        pm = pmap(n, i)
        if pm is None: skipped.append(n + ' (signature)'); continue
        def mk(c, k, n=n, i=i, pm=pm):
            def f():
                if i not in mods[c].names: raise V.Skip(i + ' not in this configuration')
                if n not in owner[c]: raise V.Skip(n + ' not exported')
                a = pairs.Side(c, i, mods[c], libs.get(c), consts=k)
                b = pairs.Side(c, n, mods[c], clib.get(c), irmod=owner[c][n], fname=n, consts=k)
                return pairs.PairSpec('%s=%s%s' % (n, i, ''.join(' %s=%d' % z for z in k.items())), a, b, pm)
            return f
        jobs.update(pairs.split(n, mk, cfgs, pairs.control(i)))
        # the same object passed for several parameters, on both sides alike
        ac = [c for c in cfgs if c in ACFGS or chk.tier != 'quick']
        for d, ins in c04.cases(i, c04.DESTS.get(i, ())):
            al, g = c04.amap(i, d, ins); back = {y: x for x, y in pm}
            def mka(c, k, n=n, i=i, pm=pm, al=al, back=back, d=d, ins=ins):
                def f():
                    if i not in mods[c].names: raise V.Skip(i + ' not in this configuration')
                    if n not in owner[c]: raise V.Skip(n + ' not exported')
                    a = pairs.Side(c, i, mods[c], libs.get(c), consts=k, alias=al)
                    b = pairs.Side(c, n, mods[c], clib.get(c), irmod=owner[c][n], fname=n, consts=k, alias={back[x]: back[y] for x, y in al.items()})
                    return pairs.PairSpec('%s=%s(%s=%s)%s' % (n, i, d, '='.join(ins), ''.join(' %s=%d' % z for z in k.items())), a, b, pm)
                return f
            if ac and set(al) | set(al.values()) <= set(back): jobs.update(pairs.split('%s(%s=%s)' % (n, d, '='.join(ins)), mka, ac, pairs.control(i)))
    chk.info['pairs'] = len(jobs); chk.info['not_paired'] = skipped
    pairs.run_jobs(chk, jobs, rounding=False)
