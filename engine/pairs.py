"""Equivalence of two encodings of /repo's code: same function through two APIs, in two configurations, or called two ways.
Both sides are executed symbolically on the same symbolic arguments and every output cell is one claim."""
from collections import Counter
import sys, time, random, traceback, multiprocessing as mp, os
from fractions import Fraction
import numpy as np
from . import dag as D, build as B, prove as V, real as R, symex, concrete, replay, runner, solver, bits, guard
from .expr import X, P, N

class Side:
    """one way of calling: API function `fn` of module `mod` in configuration `cfg` (irmod/fname: direct call of a library symbol)"""
    def __init__(self, cfg, fn, mod, lib=None, irmod=None, fname=None, consts=None, alias=None):
        self.cfg = cfg; self.fn = fn; self.mod = mod; self.lib = lib; self.irmod = irmod; self.fname = fname; self.consts = consts or {}; self.alias = alias or {}
    def run(self, init=None):
        return B.symrun(self.mod, self.fn, self.consts, alias=self.alias, init=init, irmod=self.irmod, fname=self.fname, loop_bound=12)
    @property
    def native(self): return B.CFG[self.cfg].native

class PairSpec(V.Spec):
    wf = X
    def __init__(self, name, a, b, pmap, pin=None):
        """pmap: list of (parameter of b, parameter of a)"""
        super().__init__(a.mod, a.cfg, name)
        self.a, self.b = a, b
        # b's result object stands for a's destination
        pb2a = dict(pmap)
        ra = a.run()
        init = {}
        pin = pin or {}
        if pin: ra = a.run(pin)
        for pb, pa in pmap:
            if pb == 'ret__' or pb in b.alias: continue
            if pa in ra.inputs:
                for i, n in enumerate(ra.inputs[pa]): init[(pb, i)] = n
        # arrays of matrices keep their own cell names: same on both sides
        rb = b.run(init)
        if ra.dead and rb.dead: raise V.Skip('does not return')
        if ra.dead or rb.dead: raise V.Skip('one side does not return')
        self.ra, self.rb = ra, rb
        self.funcs = set(ra.ex.funcs) | set(rb.ex.funcs); self.runs = [ra, rb]
        for nm, cells in ra.inputs.items():
            if not cells or nm in a.alias: continue
            vs = [c for c in cells if c.op == 'var']
            if not vs: continue
            ty = vs[0].ty; ns = [v.val for v in vs]
            if ty[0] == 'f': self.samplers.append(V.generic(ns))
            elif ty == 'i1': self.samplers.append(lambda rng, ns=ns: {n: rng.choice([0, 1]) for n in ns})
            else: self.samplers.append(V.genint(ns))
        self.outs = []
        for tag, r in (('a', ra), ('b', rb)):
            d = {}
            for nm, cells in r.out.items():
                l = []
                for i, nd in enumerate(cells):
                    pv = D.var('%s.%s[%d]' % (tag, nm, i), nd.ty); self.bind[pv.id] = nd; l.append(pv)
                d[nm] = l
            if r.retnode is not None:
                pv = D.var(tag + '.ret', r.retnode.ty); self.bind[pv.id] = r.retnode; d['return'] = [pv]
            self.outs.append(d)
        oa, ob = self.outs
        byval = {p['name'] for p in B.API[b.fn]['params'] if p.get('byval')}
        for nb, cells in ob.items():
            if nb in byval: continue                  # passed by value: the caller's object cannot change
            na = pb2a.get(nb, nb if nb not in self.params(b) else None) if nb != 'return' else 'return'
            if na is None or na not in oa:
                if nb == 'return' and 'ret__' not in pb2a: raise V.Skip('return value has no counterpart')
                continue
            for i, c in enumerate(cells):
                if i >= len(oa[na]): continue
                ca = oa[na][i]
                if nb == 'ret__' and self.bind[ca.id].op == 'var' and self.bind[ca.id].val == B.cellname(na, i): continue   # never written by the array function
                if nb == 'ret__':
                    # where the array function leaves its destination as it was there is nothing to compare with
                    g = [n for n in ra.inputs.get(na, []) if n.op == 'var']; nd = self.bind[ca.id]; mine = set(n.id for n in g)
                    if na not in [x for y, x in pmap if y != 'ret__'] and any(z.id in mine for z in D.postorder([nd])):
                        u, v = [D.subst([nd], {x.id: D.fconst(k) if x.ty[0] == 'f' else D.iconst(int(k)) for x in g})[0] for k in (1.0, 2.0)]
                        self.assumes.append(D.fcmp('oeq', u, v) if nd.ty[0] == 'f' else D.icmp('eq', u, v))
                self.claims.append(('eq', c, ca, '%s[%d]' % (nb, i)))
        if 'return' in oa and 'return' not in ob and pb2a.get('ret__') == 'return': self.claims.append(('eq', ob['ret__'][0], oa['return'][0], 'return'))
    @staticmethod
    def params(s): return {p['name'] for p in B.API[s.fn]['params']}

def execute(s, env, garbage, child):
    """both sides on the same concrete arguments; -> values of the placeholders, log"""
    vals = {k: np.array([float(v) if isinstance(v, Fraction) else v]) for k, v in env.items()}
    for k, v in garbage.items(): vals.setdefault(k, np.array([v]))
    log = []
    for tag, sd, r in (('a', s.a, s.ra), ('b', s.b, s.rb)):
        ins = {}
        dv = V.DefEnv(vals)
        for nm, cells in r.inputs.items():
            if nm in sd.consts or nm in sd.alias: continue
            l = []
            for c in cells:
                v = concrete.Eval(dv, 1, 'real')([c])[0][0]
                if c.ty[0] == 'f': l.append(float(np.float32(v)))
                else:
                    w = int(v); b = D.bits_of(c.ty); l.append(w - (1 << b) if b > 1 and w >> (b-1) else w)
            ins[nm] = l
        st = 'err'   # no binary to call: the IR semantics decide
        if sd.native and sd.lib: st, x = child.call(sd.lib, sd.fn, ins, consts=sd.consts, alias=sd.alias, fname=sd.fname)
        if st != 'err':
            if st != 'ok': log.append(dict(fn=sd.fname or sd.fn, config=sd.cfg, inputs=ins, result='%s %r' % (st, x))); return None, log
            rv, out = x
        else:
            ev = concrete.Eval(dv, 1, 'ieee')
            out = {nm: [V.conv1(ev([n])[0][0], n) for n in l] for nm, l in r.out.items()}
            rv = None if r.retnode is None else V.conv1(ev([r.retnode])[0][0], r.retnode)
        for nm, arr in out.items():
            for i, v in enumerate(arr): vals['%s.%s[%d]' % (tag, nm, i)] = np.array([v])
        if rv is not None: vals[tag + '.ret'] = np.array([rv])
        log.append(dict(fn=sd.fname or sd.fn, config=sd.cfg, inputs={k: [float(z) for z in v] for k, v in ins.items()}, consts=sd.consts, alias=sd.alias,
                        outputs={k: [float(z) for z in v] for k, v in out.items()}, ret=None if rv is None else float(rv)))
    return vals, log

def validate(s, p, child):
    """the encodings evaluated in IEEE arithmetic against the compiled functions"""
    n = 0
    for e in p.draw(1):
        vals, log = execute(s, e, {}, child)
        if vals is None:
            if os.environ.get('VERBOSE'): print('crash', s.unit, log[-1], flush=True)
            return True, 0
        base = {k: v for k, v in vals.items()}
        dv = V.DefEnv({k: np.array([float(v) if isinstance(v, Fraction) else v]) for k, v in e.items()})
        for tag, sd, r in (('a', s.a, s.ra), ('b', s.b, s.rb)):
            if not (sd.native and sd.lib): continue
            n += 1
            ev = concrete.Eval(dv, 1, 'ieee')
            for nm, l in r.out.items():
                for i, nd in enumerate(l):
                    if nd.op == 'var' or any(z.op in ('undef', 'rcp', 'rsqrt') for z in D.postorder([nd])): continue
                    try: g = V.conv1(ev([nd])[0][0], nd)
                    except NotImplementedError: continue
                    a = float(vals['%s.%s[%d]' % (tag, nm, i)][0])
                    if not (np.isfinite(g) and np.isfinite(a)): continue
                    sc = 1 + max([abs(float(x)) for x in e.values()] + [0])
                    if abs(g-a) > 2e-3*sc*(1+abs(a)):
                        if os.environ.get('VERBOSE'): print('validate', s.unit, nm, i, g, a, log[0 if tag == 'a' else 1], e, D.show(nd, 6)[:500], flush=True)
                        return False, n
    return True, n

TOL = 1e-3
def judge(s, cl, vals, tol):
    kind, a, b, label = cl
    x, y = float(vals[a.val][0]), float(vals[b.val][0])
    if a.ty[0] != 'f': return x != y, '%s: %r against %r' % (label, x, y)
    if np.isnan(x) and np.isnan(y): return False, ''
    if np.isnan(y) or np.isinf(y): return (x != y) and tol < 1e-4, '%s: %r against %r' % (label, x, y)
    if np.isnan(x) or np.isinf(x): return True, '%s: %r against %r' % (label, x, y)
    return abs(x-y) > tol*(1+max(abs(x), abs(y))), '%s: %r against %r' % (label, x, y)

class RProver(V.Prover): pass
UFOPS = ('fadd', 'fsub', 'fmul', 'fdiv', 'sqrt', 'fma', 'floor', 'ceil', 'ftrunc', 'rint', 'round', 'fpext', 'fptrunc', 'sitofp', 'uitofp')
class ULow(bits.Low):
    """every floating-point operation uninterpreted"""
    def fp_(self, n):
        if n.op in UFOPS: return self.name(bits.fsort(n.ty), '(%s %s)' % (self.uf(n.op, n), ' '.join(self.fp(a) if a.ty[0] == 'f' else self.bv(a) for a in n.args)))
        return super().fp_(n)
    def uf(self, op, n):
        key = (op, n.ty) + tuple(a.ty for a in n.args)
        if key not in self.ufs:
            self.ufs[key] = 'uf_%s_%d' % (op, len(self.ufs))
            self.lines.insert(0, '(declare-fun %s (%s) %s)' % (self.ufs[key], ' '.join(bits.fsort(a.ty) if a.ty[0] == 'f' else '(_ BitVec %d)' % D.bits_of(a.ty) for a in n.args), bits.fsort(n.ty)))
        return self.ufs[key]
    def side(self, nodes):
        self.fm = {}; self.bm = {}; out = []
        for n in nodes: out.append(self.fp(n) if n.ty[0] == 'f' else self.b(n) if n.ty == 'i1' else self.bv(n))
        return out
def congruence(z3, pairs_, t=20):
    """one query: the two sides, lowered separately, agree on every output under uninterpreted arithmetic"""
    L = ULow(); L.und = {}
    try:
        xs = L.side([a for a, b in pairs_]); ys = L.side([b for a, b in pairs_])
    except symex.Unsupported: return 'unknown'
    txt = '\n'.join(L.lines) + '\n(assert (not (and true %s)))' % ' '.join('(= %s %s)' % (x, y) for x, y in zip(xs, ys))
    return z3.check(txt, t, None, None)[0]
class AProver(bits.BProver):
    """bit-precise with library arithmetic abstracted"""
    def __init__(self, s, z3, seed):
        s.soft = getattr(s, 'soft', []); super().__init__(s, z3, seed)
    def quick(self, cl, t=4):
        kind, a, b, label = cl
        try: L, txt = self.text(('num' if a.ty[0] == 'f' else 'eq', a, b, label), False, True)
        except symex.Unsupported: return None
        self.npaths += 1
        return self.z3.check(txt, t, None, None)[0] == 'unsat'
    def exact(self, cl, t):
        kind, a, b, label = cl
        try: L, txt = self.text(('num' if a.ty[0] == 'f' else 'eq', a, b, label), False, False)
        except symex.Unsupported as e: return ('inconclusive', str(e))
        self.npaths += 1
        v, m = self.z3.check(txt, t, None, None)
        if v == 'unsat': return ('proven', 'unsat')
        if v == 'sat':
            m = self.model(txt, sorted(L.inputs.values()))
            return ('cex', {nm: m[i] for (nm, ty), i in L.inputs.items() if i in m})
        return ('inconclusive', 'solver: unknown')

def replay_env(s, p, env, garbage, cl, raw, child, tol):
    vals, log = execute(s, env, garbage, child)
    if vals is None: return dict(unit=s.unit, config=s.a.cfg, claim=raw[3], detail='call crashed', calls=log, inputs={k: str(v) for k, v in env.items()})
    bad, det = judge(s, raw, vals, tol)
    if bad: return dict(unit=s.unit, config=s.b.cfg, claim=raw[3], detail=det, inputs={k: str(v) for k, v in env.items()}, calls=log)
    return None

def heavy(cl):
    """many conditionals: the path procedure would have to split too often"""
    n = 0
    for z in D.postorder([cl[1], cl[2]]): n += z.op in ('ite', 'floor', 'fmod')
    return n > 30
def alternatives(rp, cl):
    """canonical forms over atoms, then the boolean/linear encoding"""
    from . import opaque, linear
    r = ('inconclusive', '')
    if cl[1].ty[0] == 'f':
        rp.s.cutat = 12; rp.opctx = None; r = opaque.prove(rp, cl)
        if r[0] == 'proven': return r
    l, rp.limit = rp.limit, min(rp.limit, 10)
    r2 = linear.prove(rp, cl if cl[1].ty[0] == 'f' else ('holds', D.not_(D.xor_(cl[1], cl[2])), None, cl[3]), []) if cl[1].ty[0] == 'f' or cl[1].ty == 'i1' else r
    rp.limit = l
    return r2 if r2[0] == 'proven' else ('inconclusive', r[1] or r2[1])

def timed(sec, f, *a):
    try:
        with guard.within(sec): return f(*a)
    except guard.Timeout: runner.reset(); return ('inconclusive', 'time limit')
    except (MemoryError, RecursionError): runner.reset(); return ('inconclusive', 'memory limit')
def lst(r): return r if isinstance(r, list) else []
def setup_prove(rp, cl): rp.setup(); return rp.prove_claim(cl)

def decide(s, z3, child, seed, deadline, st, rounding=True, assumes=None):
    """all claims of a pair -> list of violations, list of inconclusive"""
    viol = []; inc = []
    ap = AProver(s, z3, seed); ap.bindall(); ap.limit = 60
    if s.ra.pc is not D.TRUE or s.rb.pc is not D.TRUE:
        # paths on which an assert stops the program are outside
        ap.bassume = ap.bassume + [x for x in (s.ra.pc, s.rb.pc) if x is not D.TRUE]
    rp = None; fails = 0; same = []
    groups = {}
    if getattr(s, 'estimates', False):
        from . import estimate
        r = timed(120, estimate.decide, s, ap, z3, child, st, sys.modules[__name__])
        if r[0] == 'inconclusive': inc.append((s.unit, 'estimates: ' + r[1]))
        else: viol += r[0]; inc += r[1]
    for i, cl in enumerate(ap.bound):
        kind, a, b, label = cl
        st['claims'] += 1
        if a is b: st['proven'] += 1; st['identical'] += 1; same.append((a, b)); continue
        if (a.id, b.id) in groups: st['proven'] += groups[(a.id, b.id)]; continue
        if timed(60, ap.quick, cl, 1 if rounding else 4) is True: st['proven'] += 1; groups[(a.id, b.id)] = 1; continue
        left = deadline - time.time()
        if runner.enough(len(viol)): break
        if left < 3: inc.append((s.unit + ':' + label, 'time budget')); continue
        r = ('inconclusive', ''); v = None
        if rounding and a.ty in ('f32', 'f64', 'i1'):
            if rp is None: rp = RProver(s, z3, seed); rp.bindall(); rp.bassume = ap.bassume
            # a short attempt, then a look for a model the real code confirms, then the long attempt
            for lim in (6, 45):
                rp.limit = min(lim, left)
                if heavy(ap.bound[i]): r = timed(3*lim+10, alternatives, rp, cl)
                if r[0] != 'proven': r = timed(1.5*lim+10, setup_prove, rp, cl)
                if r[0] != 'proven' and r[0] != 'cex' and not heavy(ap.bound[i]): r2 = timed(3*lim+10, alternatives, rp, cl); r = r2 if r2[0] == 'proven' else r
                st['paths'] += rp.npaths; rp.npaths = 0
                if r[0] == 'proven' or r[0] == 'cex': break
                for env, g, _ in lst(timed(30, rp.search, cl, 400, None))[:4]:
                    v = replay_env(s, rp, env, g, cl, s.claims[i], runner.W['child'], TOL); st['replays'] += 1
                    if v: break
                if v: break
            if v: viol.append(v); st['violated'] += 1; fails += 1
            if fails > 6: break
            if v: continue
        if r[0] != 'proven' and (not rounding or a.ty[0] == 'i' or 'encodable' in str(r[1])):
            for lim in (4, 30):
                r2 = timed(60, ap.exact, cl, min(lim, left))
                if r2[0] in ('proven', 'cex') or lim == 30: break
                for env, g, _ in lst(timed(30, ap.search, ('num' if a.ty[0] == 'f' else 'eq', a, b, label), 400, None))[:6]:
                    v = replay_env(s, ap, env, g, cl, s.claims[i], runner.W['child'], TOL if rounding else 1e-6); st['replays'] += 1
                    if v: break
                if v: break
            if v:
                viol.append(v); st['violated'] += 1; fails += 1
                if fails > 6: break
                continue
            if r2[0] == 'proven' or r[0] != 'cex': r = r2 + ('bits',)
        if r[0] == 'proven': st['proven'] += 1; groups[(a.id, b.id)] = 1; continue
        v = None; raw = s.claims[i]
        model = r[1] if r[0] == 'cex' and isinstance(r[1], dict) else None
        tol = TOL if rounding else 1e-6
        if len(r) > 2:
            for env, g, _ in lst(timed(30, ap.search, ('num' if a.ty[0] == 'f' else 'eq', a, b, label), 400, model))[:6]:
                v = replay_env(s, ap, env, g, cl, raw, runner.W['child'], tol); st['replays'] += 1
                if v: break
        if v is None and a.ty in ('f32', 'f64', 'i1', 'i32'):
            if rp is None: rp = RProver(s, z3, seed); rp.bindall(); rp.bassume = ap.bassume
            for env, g, _ in lst(timed(30, rp.search, cl, 400, model if len(r) < 3 else None))[:8]:
                v = replay_env(s, rp, env, g, cl, raw, runner.W['child'], tol); st['replays'] += 1
                if v: break
        if v is not None: viol.append(v); st['violated'] += 1
        else: inc.append(('%s:%s' % (s.unit, label), str(r[1])[:120]))
        fails += 1
        if fails > 6: break
    same = [(a, b) for a, b in same if not any(z.op == 'undef' for z in D.postorder([a]))]
    if same:
        st['paths'] += 1
        st['congruence_' + congruence(z3, same, max(2, min(20, deadline-time.time())))] += 1
    st['paths'] += ap.npaths
    return viol, inc

def guarded(work, args):
    name, deadline, seed = args
    res = dict(unit=name, st=Counter(), viol=[], incon=[], skips=[], funcs=set(), samples=[], claims=[])
    try:
        with guard.within(deadline + 30 - time.time()): work(args, res)
    except guard.Timeout: runner.reset(); res['incon'].append((name, 'time budget'))
    except Exception as e: res['error'] = traceback.format_exc()[-1500:]; res['incon'].append((name, 'error: %r' % e))
    return res
def task(args): return guarded(task_, args)
def task_(args, res):
    name, deadline, seed = args
    z3 = runner.W['z3']; st = res['st']
    q0, t0, c0 = z3.queries, z3.time, dict(z3.counts)
    seen = set()
    try:
        for build in JOBS[name]:
            if runner.enough(0): break
            if time.time() > deadline: res['incon'].append((name, 'time budget')); break
            try: s = build()
            except V.Skip as e: res['skips'].append(('', str(e))); continue
            except symex.Unsupported as e: res['incon'].append((name, 'not encodable: %s' % e)); continue
            st['programs'] += 1; st['encodings'] += 2; st['instructions'] += s.ra.steps + s.rb.steps; res['funcs'] |= s.funcs
            for r in s.runs:
                for e in r.events:
                    if e[0] == 'unwind': st['loops_cut'] += 1; res['cut'] = e[2]
            fp = tuple((s.bind.get(a.id, a).id, s.bind.get(b.id, b).id) for _, a, b, _ in s.claims)
            if fp in seen: st['same_encoding'] += 1; st['claims_same'] += len(fp); continue
            p = V.Prover(s, z3, seed); p.bindall()
            ok, n = validate(s, p, runner.W['child']); st['traces'] += n
            if not ok: res['incon'].append((s.unit, 'encoding disagrees with the compiled code on a concrete input')); continue
            v, inc = decide(s, z3, runner.W['child'], seed, deadline, st, rounding=getattr(s, 'rounding', ROUNDING))
            st['disagreements'] += len(s.claims)
            if not v: seen.add(fp)
            res['viol'] += v[:4]; res['incon'] += inc; runner.count(len(v))
            if not res['samples'] and s.claims:
                k, a, b, l = s.claims[0]
                res['samples'].append(dict(unit=s.unit, claim=l, lhs=D.show(s.bind[a.id], 3)[:200], rhs=D.show(s.bind.get(b.id, b), 3)[:200]))
            if len(res['viol']) > 6: break
    except Exception as e:
        res['error'] = traceback.format_exc()[-1500:]; res['incon'].append((name, 'error: %r' % e))
    st['queries'] += z3.queries - q0; st['solver_ms'] += int((z3.time - t0)*1000)
    for k in z3.counts: st[k] += z3.counts[k] - c0.get(k, 0)
    return res

JOBS = {}
ROUNDING = True
def run_jobs(chk, jobs, rounding=True):
    """jobs: name -> list of functions building a PairSpec"""
    global JOBS, ROUNDING
    JOBS = jobs; ROUNDING = rounding
    deadline = chk.t0 + chk.budget
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 8), runner._init) as pool:
        guard.drain(pool, pool.imap_unordered(task, [(n, deadline, chk.seed) for n in jobs]), len(jobs), chk, runner.collect)

# ---------------------------------------------------------------- control parameters
import itertools
def control(fn):
    """values enumerated for integer parameters that steer control flow or indexing; the rest stay symbolic"""
    f = B.API[fn]; ps = {p['name']: p for p in f['params'] if p['kind'] == 'scalar' and p['ty'][0] != 'f' and p['ty'] != 'i1'}
    if not ps: return [{}]
    dim = 4
    for q in f['params']:
        if q['kind'] == 'obj': dim = {4: 2, 9: 3, 16: 4}.get(q['n'], 4); break
    vals = {}
    for n in ps:
        if n in ('row1', 'row2', 'col1', 'col2'): vals[n] = range(dim)
        elif n == 'len': vals[n] = (2, 3, 4)
        elif n == 'count': vals[n] = (3,)
        elif n in ('ord', 'axis', 'order'): vals[n] = EULER
        elif n == 'mask': vals[n] = MASKS.get(fn.split('_')[1][:4], (27, 228, 0, 85, 170, 255, 57))
    return [dict(zip(vals, c)) for c in itertools.product(*vals.values())]
EULER = (0 << 0 | 1 << 2 | 2 << 4, 0 << 0 | 2 << 2 | 1 << 4, 1 << 0 | 0 << 2 | 2 << 4, 1 << 0 | 2 << 2 | 0 << 4, 2 << 0 | 0 << 2 | 1 << 4, 2 << 0 | 1 << 2 | 0 << 4)
MASKS = {'vec2': (0, 1, 4, 5), 'vec3': (6, 9, 18, 24, 33, 36, 0, 21, 42)}

def split(n, mk, cfgs, ks):
    """one job per function; the expensive ones one per control value"""
    if n.endswith('mulN'): return {'%s %s' % (n, k): [mk(c, k) for c in cfgs] for k in ks}
    return {n: [mk(c, k) for c in cfgs for k in ks]}
