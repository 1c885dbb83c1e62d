"""C02 struct API equals the array API (both encoded from the current tree, every output compared)"""
from engine import build as B, pairs, runner, prove as V, dag as D
ASSUME = ['the two encodings are compared with floating-point operations uninterpreted first (bit-exact), then bit-precisely; integers that steer indexing are enumerated',
          'a component the array function never writes has no counterpart in the returned struct']
QUICK = ['scalar', 'sse2', 'neon']
THOROUGH = ['scalar', 'sse2', 'sse3', 'sse4', 'avx', 'fma', 'unal', 'neon', 'neon32', 'wasm', 'sse2_lhzo', 'sse2_lhno', 'sse2_rhzo']
def shape(p): return (p['kind'], p.get('n'), p['ty'])
def pmap(fs, fa):
    """(parameter of the struct function, parameter of the array function), result included; None if they cannot be matched"""
    S, A = B.API[fs]['params'], B.API[fa]['params']; r = B.API[fs]['ret']; out = []
    sn = {p['name'] for p in S}; res = None
    if r['kind'] == 'struct':
        c = [p for p in A if p['kind'] == 'obj' and p['n'] == r['n'] and p['ty'] == r['ty']]
        if not c: return None
        named = [p for p in c if p['name'] in ('dest', 'd', 'point')]
        extra = [p for p in c if p['name'] not in sn]
        res = named[-1] if named else extra[-1] if extra else c[0]
        out.append(('ret__', res['name']))
    elif r['kind'] != B.API[fa]['ret']['kind']: return None
    an = {p['name']: p for p in A}
    left = []
    for p in S:
        q = an.get(p['name'])
        if q is not None and shape(q) == shape(p): out.append((p['name'], q['name']))
        else: left.append(p)
    used = {a for _, a in out}
    for p in left:
        q = next((q for q in A if q['name'] not in used and shape(q) == shape(p)), None)
        if q is None and res is not None and not any(a == res['name'] and s != 'ret__' for s, a in out) and shape(res) == shape(p): q = res
        if q is None: q = next((q for q in A if q['name'] not in used and q['kind'] == p['kind'] == 'obj' and q['ty'] == p['ty'] and q['n'] < p['n']), None)   # leading part of a wider vector
        if q is None: return None
        out.append((p['name'], q['name'])); used.add(q['name'])
    # everything the array function reads must be given
    got = {a for _, a in out}
    if any(p['kind'] == 'scalar' and p['name'] not in got for p in A): return None
    return out
class Moves(pairs.PairSpec):
    """pack/unpack: element i of the destination is element i of the source"""
    def __init__(self, name, side):
        super().__init__(name, side, side, [(p['name'], p['name']) for p in B.API[side.fn]['params']])
        self.claims = [('eq', d, s, 'dst[%d]' % i) for i, (d, s) in enumerate(zip(self.outs[0]['dst'], self.ra.inputs['src']))]
        for k, d, s, l in self.claims: self.bind[s.id] = s
def broken(chk, h, fs):
    src = '#include <cglm/struct.h>\n#include <cglm/%s>\nvoid *use[] = {%s};\n' % (h, ', '.join(fs))
    o = B.tmpdir() + '/hdr.c'; open(o, 'w').write(src)
    r = B.run(['gcc', '-std=gnu11', '-Werror=implicit-function-declaration', '-I' + B.INC, '-c', o, '-o', '/dev/null'])
    chk.stats['replays'] += 1
    if r.returncode: chk.viol.append(dict(unit=h, config='', claim='compiles', detail='the header does not compile: %s' % r.stderr[:600], inputs=dict(source=src), how='compiled with gcc'))
    else: chk.incon.append((h, 'not loaded'))
def run(chk):
    cfgs = QUICK if chk.tier == 'quick' else THOROUGH
    chk.level = 'translation_validation'
    names = [n for n in B.API if not n.startswith('glmc_')]
    mods, libs, errs = runner.compile_all(cfgs, names, struct=True)
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    cfgs = [c for c in cfgs if c in mods]
    if not cfgs: raise SystemExit('nothing builds: %s' % errs)
    chk.info['configurations'] = cfgs
    # a struct function that does not compile cannot equal its array counterpart
    for h in B.EXTRA:
        fs = [n for n in B.API if B.API[n]['header'] == h and n in B.source_names()]
        if fs and not any(n in mods[c].names for n in fs for c in cfgs): broken(chk, h, fs)
    have = B.source_names(); jobs = {}; skipped = []
    for n in sorted(B.API):
        if not n.startswith('glms_') or n.startswith('glms_x_'): continue
        a = {'glms_vec3_flipsign': 'glm_vec3_negate'}.get(n, 'glm_' + n[5:])
        if n not in have: skipped.append(n); continue
        if n.endswith('pack'):
            def mkp(c, n=n): return lambda: Moves(n, pairs.Side(c, n, mods[c], libs.get(c), consts={'len': 3}))
            jobs[n] = [mkp(c) for c in cfgs]; continue
        if a not in B.API or a not in have: skipped.append(n); continue
        pm = pmap(n, a)
        if pm is None: skipped.append(n + ' (signature)'); continue
        def mk(c, k, n=n, a=a, pm=pm):
            def f():
                if n not in mods[c].names or a not in mods[c].names: raise V.Skip('not in this configuration')
                back = dict(pm)
                ka = {back.get(x, x): v for x, v in k.items()}
                s = pairs.PairSpec('%s=%s%s' % (n, a, ''.join(' %s=%d' % z for z in k.items())), pairs.Side(c, a, mods[c], libs.get(c), consts=ka), pairs.Side(c, n, mods[c], libs.get(c), consts=k), pm)
                s.rounding = n == 'glms_mat4_mulN'      # multiplies from the identity: equal as a product
                return s
            return f
        jobs.update(pairs.split(n, mk, cfgs, pairs.control(n)))
    chk.info['pairs'] = len(jobs); chk.info['not_paired'] = skipped
    pairs.run_jobs(chk, jobs, rounding=False)
