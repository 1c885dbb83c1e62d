"""C03 every SIMD configuration computes the same function as the scalar code"""
from engine import dag as D, build as B, pairs, runner, prove as V
ASSUME = ['floating point is interpreted as exact real arithmetic where the two encodings differ (the statement is "up to rounding"); every counterexample is replayed on the compiled code of both configurations',
          'reciprocal estimate instructions: each use is shown to be refined to 2^-20 for every error the hardware may make (SSE 1.5*2^-12, NEON 2^-8), then taken as exact; glm_mat4_inv_fast is documented as unrefined', 'NEON and WebAssembly code is executed on the compiler IR semantics (no such CPU here)', 'affine routines (mul, mul_rot, inv_tr, rotated*) get matrices of the documented affine form', 'objects are disjoint (aliasing is C04)']
SIMD = ['sse2', 'sse3', 'sse4', 'avx', 'fma', 'neon', 'neon32', 'wasm']
EXTRA = [('scalar_lhzo', 'sse2_lhzo'), ('scalar_lhno', 'sse2_lhno'), ('scalar_rhzo', 'sse2_rhzo')]
# documented domain of the affine routines (include/cglm/affine*.h): last row 0 0 0 w, of inv_tr 0 0 0 1
AFF = {3: 0.0, 7: 0.0, 11: 0.0}
DOMAIN = {'glm_mul': dict(m1=AFF, m2=AFF), 'glm_inv_tr': dict(mat=dict(AFF) | {15: 1.0}),
          'glm_mul_rot': dict(m1=AFF, m2=dict(AFF) | {12: 0.0, 13: 0.0, 14: 0.0, 15: 1.0})}
for _f in ('', '_x', '_y', '_z', '_at'): DOMAIN['glm_rotated' + _f] = dict(m=AFF)
# documented: reciprocal approximation without correction
FAST = ('glm_mat4_inv_fast',)
def pins(n): return {(p, i): D.fconst(v) for p, d in DOMAIN.get(n, {}).items() for i, v in d.items()}
def run(chk):
    chk.level = 'translation_validation'
    names = [n for n in B.API if n.startswith('glm_')]
    pairs_ = [('scalar', c) for c in SIMD] + (EXTRA if chk.tier == 'thorough' else [])
    cfgs = sorted({c for p in pairs_ for c in p}, key=lambda c: list(B.CFG).index(c))
    mods, libs, errs = runner.compile_all(cfgs, names)
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    pairs_ = [(a, b) for a, b in pairs_ if a in mods and b in mods]
    if not pairs_: raise SystemExit('nothing builds: %s' % errs)
    chk.info['configurations'] = ['%s against %s' % (b, a) for a, b in pairs_]
    have = B.source_names(); jobs = {}
    for n in names:
        if n not in have: continue
        pm = [(p['name'], p['name']) for p in B.API[n]['params']]
        def mk(c, k, n=n, pm=pm):
            def f():
                a, b = c
                if n not in mods[a].names or n not in mods[b].names: raise V.Skip('not in this configuration')
                s = pairs.PairSpec('%s%s %s/%s' % (n, ''.join(' %s=%d' % z for z in k.items()), b, a), pairs.Side(a, n, mods[a], libs.get(a), consts=k), pairs.Side(b, n, mods[b], libs.get(b), consts=k), pm, pins(n))
                s.estimates = n not in FAST; return s
            return f
        jobs.update(pairs.split(n, mk, pairs_, pairs.control(n)))
    chk.info['functions'] = len(jobs)
    pairs.run_jobs(chk, jobs, rounding=True)
