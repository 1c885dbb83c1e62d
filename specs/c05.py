"""C05 no access outside the arguments, misaligned, or uninitialised"""
import json
from engine import build as B, memcheck, pairs, runner, prove as V
CFGS = ['scalar', 'sse2', 'sse3', 'sse4', 'avx', 'fma', 'unal', 'unal_avx', 'unal_scalar', 'neon', 'neon32', 'wasm']
SCFGS = ['scalar', 'sse2', 'unal', 'unal_avx', 'neon', 'wasm']
ASSUME = ['objects have exactly the documented size and only the alignment their type guarantees in the configuration',
          'integers that select rows, columns, axes, lengths or Euler orders take their documented values (swizzle masks: every valid mask); loops are unrolled 12 times',
          'outonly.json lists the destinations whose earlier contents no result depends on (derived once); they start out uninitialised here']
OUT = json.load(open(B.VERIF + '/outonly.json'))
def controls(n):
    if n.endswith('pack'): return [k for k in pairs.control(n) if k.get('len', 0) < 4]       # the arrays here have three elements
    if 'swizzle' not in n: return pairs.control(n)
    dim = 4 if 'vec4' in n else 3 if 'vec3' in n else 2
    import itertools
    return [dict(mask=sum(v << (2*i) for i, v in enumerate(c))) for c in itertools.product(range(dim), repeat=dim)] if 'mask' in [p['name'] for p in B.API[n]['params']] else pairs.control(n)
def key(k): return ','.join('%s=%d' % z for z in k.items())
def run(chk):
    chk.level = 'model_checking'
    names = [n for n in B.API if not n.startswith('glmc_')]
    from concurrent.futures import ThreadPoolExecutor
    def ld(a):
        try: return a, B.load(a[0], [n for n in names if n.startswith('glms_') == a[1]], a[1], tag='m%d' % a[1])
        except B.BuildError as e: return a, e
    with ThreadPoolExecutor(9) as ex: ms = dict(ex.map(ld, [(c, False) for c in CFGS] + [(c, True) for c in SCFGS]))
    chk.info['build_errors'] = {'%s %s' % a: str(m)[:300] for a, m in ms.items() if isinstance(m, Exception)}
    ms = {a: m for a, m in ms.items() if not isinstance(m, Exception)}
    if not ms: raise SystemExit('nothing builds')
    chk.info['configurations'] = sorted({a[0] for a in ms})
    have = B.source_names(); jobs = {}
    for n in names:
        if n not in have: continue
        st = n.startswith('glms_')
        def mk(c, k, n=n, st=st):
            def f():
                m = ms[(c, st)]
                if n not in m.names: raise V.Skip('not in this configuration')
                s = memcheck.MemSpec('%s%s %s' % (n, ''.join(' %s=%d' % z for z in k.items()), c), c, m, n, k, OUT.get(n, {}).get(key(k), OUT.get(n, {}).get('', [])))
                s.struct = st; return s
            return f
        jobs.update(pairs.split(n, mk, [c for c in CFGS if (c, st) in ms], controls(n)))
    chk.info['functions'] = len(jobs)
    memcheck.run_jobs(chk, jobs)
