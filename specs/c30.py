"""C30 unsuffixed functions follow the convention selected at build time (every output of the dispatcher compared with the explicit variant)"""
import concurrent.futures as cf, re
from engine import build as B, pairs, runner, replay, prove as V
from specs import c01, c02
ASSUME = ['the two encodings are compared with floating-point operations uninterpreted first (bit-exact), then bit-precisely; integers that steer indexing are enumerated',
          'objects are disjoint (aliasing is C04)']
BASE_QUICK = ['scalar', 'sse2']
HAND = {'': 'rh', '_rhzo': 'rh', '_lhno': 'lh', '_lhzo': 'lh'}
DEPTH = {'': 'no', '_rhzo': 'zo', '_lhno': 'no', '_lhzo': 'zo'}
OWN = ('glm_clamp',)                  # _zo means something else there
def variants(n):
    """explicit variants of unsuffixed array function n -> function of the configuration suffix giving the names it must agree with"""
    if n in OWN: return None
    if n == 'glm_unproject': return lambda s: ['glm_x_unproject_' + DEPTH[s]]
    c = [x for x in ('_lh_no', '_rh_no', '_lh_zo', '_rh_zo', '_lh', '_rh', '_no', '_zo') if n + x in B.API]
    if not c: return None
    return lambda s: [n + x for x in ('_%s_%s' % (HAND[s], DEPTH[s]), '_' + HAND[s], '_' + DEPTH[s]) if x in c]
def run(chk):
    cfgs = [b + s for s in HAND for b in BASE_QUICK]
    chk.level = 'translation_validation'
    names = [n for n in B.API if not n.startswith('glmc_')]
    with cf.ThreadPoolExecutor(12) as ex:
        fo = {c: ex.submit(B.load_call, c) for c in cfgs}
        fs = {c: ex.submit(replay.compile_call_so, c) for c in cfgs}
        mods, libs, errs = runner.compile_all(cfgs, names, struct=True)
        owner, clib = {}, {}
        for c, f in fo.items():
            try: owner[c] = f.result()
            except B.BuildError as e: errs['call:' + c] = str(e)
        for c, f in fs.items():
            try: clib[c] = f.result()
            except B.BuildError as e: errs['callso:' + c] = str(e)
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    cfgs = [c for c in cfgs if c in mods]
    if not cfgs: raise SystemExit('nothing builds: %s' % errs)
    chk.info['configurations'] = cfgs
    have = B.source_names(); jobs = {}; skipped = []
    for n in sorted(B.API):
        m = re.match(r'glm([cs]?)_(.*)$', n); kind, base = m.group(1), 'glm_' + m.group(2)
        v = variants(base)
        if v is None: continue
        if n not in have: skipped.append(n); continue
        def mk(c, k, n=n, kind=kind, v=v):
            sfx = c[c.index('_'):] if '_' in c else ''
            def f(t):
                def g():
                    if t not in mods[c].names: raise V.Skip(t + ' not in this configuration')
                    if kind == 'c':
                        if c not in owner or n not in owner[c]: raise V.Skip(n + ' not exported')
                        pm = c01.pmap(n, t); b = pairs.Side(c, n, mods[c], clib.get(c), irmod=owner[c][n], fname=n, consts=k)
                    else:
                        if n not in mods[c].names: raise V.Skip('not in this configuration')
                        pm = c02.pmap(n, t) if kind == 's' else [(p['name'], p['name']) for p in B.API[n]['params']]
                        if kind == '' : pm = c01.pmap(n, t)
                        b = pairs.Side(c, n, mods[c], libs.get(c), consts=k)
                    if pm is None: raise V.Skip('signature')
                    return pairs.PairSpec('%s=%s [%s]' % (n, t, c), pairs.Side(c, t, mods[c], libs.get(c), consts=k), b, pm)
                return g
            return [f(t) for t in v(sfx)]
        jobs[n] = [j for c in cfgs for k in pairs.control(n) for j in mk(c, k)]
    chk.info['pairs'] = sum(map(len, jobs.values())); chk.info['not_paired'] = skipped
    pairs.run_jobs(chk, jobs, rounding=False)
