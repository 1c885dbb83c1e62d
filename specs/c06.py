"""C06 inputs untouched, partial updates leave the rest as it was (bit for bit)"""
import json
import numpy as np
from engine import concrete, dag as D, build as B, pairs, runner, prove as V, symex
from specs import c03
CFGS = ['scalar', 'sse2', 'sse3', 'sse4', 'avx', 'fma', 'unal', 'unal_avx', 'unal_scalar', 'neon', 'neon32', 'wasm']
SCFGS = ['scalar', 'sse2', 'fma', 'neon']
ASSUME = ['frame.json lists the cells each function may change (derived once from the tree this check was written for, reviewed against the @param[in]/[out] documentation); every other cell is claimed unchanged',
          'objects are disjoint', 'affine routines (mul, mul_rot, inv_tr, rotated*) get matrices of the documented affine form']
FRAME = json.load(open(B.VERIF + '/frame.json'))
FRAME['glm_inv_tr'] = {'': {'mat': list(range(16))}}     # the SIMD forms recompute the last row; its value is C13's
class FrameSpec(pairs.PairSpec):
    rounding = False
    def __init__(self, name, a, frame, pin):
        V.Spec.__init__(self, a.mod, a.cfg, name)
        self.a = self.b = a
        ra = a.run(pin)
        if ra.dead: raise V.Skip('does not return')
        self.ra = self.rb = ra; self.runs = [ra]; self.funcs = set(ra.ex.funcs)
        for nm, cells in ra.inputs.items():
            vs = [c for c in cells if c.op == 'var']
            if not vs: continue
            ty = vs[0].ty; ns = [v.val for v in vs]
            if ty[0] == 'f': self.samplers.append(V.generic(ns))
            elif ty == 'i1': self.samplers.append(lambda rng, ns=ns: {n: rng.choice([0, 1]) for n in ns})
            else: self.samplers.append(V.genint(ns))
        for nm, cells in ra.out.items():
            may = frame.get(nm, range(len(cells)))
            for i, nd in enumerate(cells):
                pv = D.var('a.%s[%d]' % (nm, i), nd.ty); self.bind[pv.id] = nd
                if i in may: continue
                self.claims.append(('eq', pv, ra.inputs[nm][i], '%s[%d] unchanged' % (nm, i)))
def judge(s, cl, vals, tol):
    kind, a, b, label = cl
    x = vals[a.val][0]; y = vals[b.val][0] if b.op == 'var' else concrete.Eval({}, 1, 'ieee')([b])[0][0]
    x, y = float(x), float(y)
    if a.ty[0] == 'f': y = float(np.float32(y))
    elif y >= 2**31: y -= 2**32
    return not (x == y or x != x and y != y), '%s: %r instead of %r' % (label, x, y)
def run(chk):
    chk.level = 'model_checking'
    pairs.judge = judge
    names = [n for n in B.API if n.startswith('glm_')]; snames = [n for n in B.API if n.startswith('glms_') and n in FRAME]
    mods, libs, errs = runner.compile_all(CFGS, names)
    smods, slibs, serrs = runner.compile_all(SCFGS, snames, struct=True, tag='s'); errs.update({'struct ' + k: v for k, v in serrs.items()})
    both = (mods, libs), (smods, slibs)
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    if not mods: raise SystemExit('nothing builds: %s' % errs)
    chk.info['configurations'] = list(mods)
    have = B.source_names(); jobs = {}
    for n in names + snames:
        if n not in have or n not in FRAME: continue
        mods, libs = both[n.startswith('glms_')]
        def mk(c, k, n=n, mods=mods, libs=libs):
            def f():
                if n not in mods[c].names: raise V.Skip('not in this configuration')
                fr = FRAME[n].get(','.join('%s=%d' % z for z in k.items()))
                if fr is None: raise V.Skip('no frame')
                return FrameSpec('%s%s %s' % (n, ''.join(' %s=%d' % z for z in k.items()), c), pairs.Side(c, n, mods[c], libs.get(c), consts=k), fr, c03.pins(n))
            return f
        jobs.update(pairs.split(n, mk, list(mods), pairs.control(n)))
    chk.info['functions'] = len(jobs)
    pairs.run_jobs(chk, jobs, rounding=False)
