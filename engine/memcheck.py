"""Memory safety of the real code: every access of every encoded path inside its object, aligned, to a writable object,
and no result or branch depending on memory nobody wrote."""
import os, time, json, traceback, shutil, resource, multiprocessing as mp, struct, re
from collections import Counter
import numpy as np
from . import dag as D, build as B, prove as V, bits, symex, solver, runner, pairs, concrete, guard

class MemSpec(V.Spec):
    def __init__(self, name, cfg, mod, fn, consts, outonly):
        super().__init__(mod, cfg, name)
        self.fn, self.consts, self.outonly = fn, consts, outonly; self.soft = []
        init = {}
        for p in B.API[fn]['params'] + ([dict(name='ret__', kind='obj', **{k: B.API[fn]['ret'][k] for k in ('n', 'ty')})] if B.API[fn]['ret']['kind'] == 'struct' else []):
            if p['name'] in outonly and p['kind'] == 'obj':
                for i in range(p['n']): init[(p['name'], i)] = D.undef('initial %s[%d]' % (p['name'], i), p['ty'])
        r = B.symrun(mod, fn, consts, init=init, loop_bound=12, record=True)
        self.r = r; self.runs = [r]; self.funcs = set(r.ex.funcs)
        for nm, cells in r.inputs.items():
            vs = [c for c in cells if c.op == 'var']
            if not vs: continue
            ty = vs[0].ty; ns = [v.val for v in vs]
            if ty[0] == 'f': self.samplers.append(V.generic(ns))
            elif ty == 'i1': self.samplers.append(lambda rng, ns=ns: {n: rng.choice([0, 1]) for n in ns})
            else: self.samplers.append(V.genint(ns))
        self.kinds = []
        for kind, c, desc, obj in r.events:
            if kind == 'unwind': continue
            self.claims.append(('holds', D.not_(c), None, '%s: %s' % (kind, desc))); self.kinds.append(kind)
        # uninitialised data: the value under two different fillings
        fills = set()
        def two(n):
            us = [z for z in D.postorder([n]) if z.op == 'undef']
            if not us: return None
            fills.update((('fill%d %s' % (k, u.val), u.ty) for u in us for k in (0, 1)))
            return [D.subst([n], {u.id: D.var('fill%d %s' % (k, u.val), u.ty) for u in us})[0] for k in (0, 1)]
        seen = set()
        for pc, c in r.ex.branches:
            if c.id in seen: continue
            seen.add(c.id)
            t = two(c)
            if t is None: continue
            if any(z.op == 'undef' for z in D.postorder([pc])): pc = D.TRUE
            self.claims.append(('holds', D.or_(D.not_(pc), D.not_(D.xor_(*t))), None, 'uninit: branch depends on memory nobody wrote')); self.kinds.append('uninit')
        if not r.dead:
            for nm, cells in r.out.items():
                for i, x in enumerate(cells):
                    if x.op == 'undef' and nm in outonly and x.val == 'initial %s[%d]' % (nm, i): continue      # not written (frame is C06)
                    t = two(x)
                    if t is None: continue
                    self.claims.append(('num' if x.ty[0] == 'f' else 'eq', t[0], t[1], 'uninit: %s[%d] depends on memory nobody wrote' % (nm, i))); self.kinds.append('uninit')
            if r.retnode is not None:
                t = two(r.retnode)
                if t: self.claims.append(('num' if t[0].ty[0] == 'f' else 'eq', t[0], t[1], 'uninit: return value depends on memory nobody wrote')); self.kinds.append('uninit')

        for nm, ty in sorted(fills):
            self.samplers.append(V.generic([nm]) if ty[0] == 'f' else V.genint([nm]) if ty != 'i1' else lambda rng, nm=nm: {nm: rng.choice([0, 1])})

def accesses_query(r):
    """all accesses of all paths in one query, offsets as bit-vectors: is any outside its object, misaligned or to a constant object"""
    t = []; seen = set()
    for c, o, off, size, align, rw in r.ex.acc:
        if o is None: continue
        k = (o.size, o.align, off, size, align, rw, o.const)
        if k in seen: continue
        seen.add(k)
        b = lambda v: '(_ bv%d 64)' % (v & (1 << 64)-1)
        t.append('(let ((o %s)) (or (bvslt o %s) (bvsgt (bvadd o %s) %s)%s%s))' % (b(off), b(0), b(size), b(o.size),
                 ' (not (= (bvurem (bvadd base%d o) %s) %s))' % (o.align, b(align), b(0)) if align > 1 else '', ' true' if rw == 'store' and o.const else ''))
    al = sorted({int(x) for s in t for x in re.findall(r'base(\d+) ', s)})
    pre = ''.join('(declare-const base%d (_ BitVec 64))(assert (= (bvurem base%d (_ bv%d 64)) (_ bv0 64)))' % (a, a, a) for a in al)
    return pre + '(assert (or false %s))' % ' '.join(t), len(t)

# ---------------------------------------------------------------- replay under the sanitizers
def hexf(v): return struct.unpack('<I', struct.pack('<f', np.float32(v)))[0]
def driver(s, env, kind, shift):
    """C program making the call on exactly sized objects"""
    f = B.API[s.fn]; mod = s.mod
    code = []; args = []
    def put(nm, ty, cells, align, init=True):
        n = len(cells)
        code.append('unsigned *%s = (unsigned *)obj(%d, %d);' % (nm, 4*n, align))
        if init:
            for i, v in enumerate(cells): code.append('%s[%d] = 0x%xu;' % (nm, i, v))
    ev = concrete.Eval(V.DefEnv({k: np.array([v]) for k, v in env.items()}), 1, 'ieee')
    def val(c):
        if c.op == 'undef': return 0
        v = ev([c])[0][0]
        return hexf(v) if c.ty[0] == 'f' else int(v) & 0xffffffff
    ps = list(f['params'])
    if f['ret']['kind'] == 'struct': ps.append(dict(name='ret__', kind='obj', elem=f['ret']['elem'], n=f['ret']['n'], ty=f['ret']['ty'], type=f['ret']['type'], ptr=0, arr='', const=False))
    chk = []
    for p in ps:
        nm = p['name']; t = p['type']
        if p['kind'] == 'scalar':
            if nm in s.consts: args.append(str(s.consts[nm]))
            elif p['ty'][0] == 'f':
                code.append('union { unsigned u; float f; } s_%s; s_%s.u = 0x%xu;' % (nm, nm, val(s.r.inputs[nm][0]))); args.append('s_%s.f' % nm)
            else: args.append('(%s)%d' % ('int' if p['ty'] != 'i1' else 'bool', val(s.r.inputs[nm][0]) - (1 << 32 if val(s.r.inputs[nm][0]) >> 31 else 0)))
            continue
        if p['n'] == -1:
            k = s.consts.get('len', 3)
            for j in range(k): put('%s%d' % (nm, j), 'f32', [val(c) for c in s.r.inputs['%s%d' % (nm, j)]], mod.al.get('mat4', 16))
            code.append('void **%s = (void **)obj(%d, 8);' % (nm, 8*k) + ''.join('%s[%d] = %s%d;' % (nm, j, nm, j) for j in range(k)))
        else:
            put(nm, p['ty'], [val(c) for c in s.r.inputs[nm]], B.objalign(mod, p), nm not in s.outonly)
            if kind == 'msan' and not s.r.dead:
                for i, x in enumerate(s.r.out[nm]):
                    if not (x.op == 'undef' and x.val.startswith('initial ')): chk.append('chk(%s + %d, 4);' % (nm, i))
        args.append('(void *)%s' % nm)
    hdr = '''#include <stdlib.h>
#include <stdint.h>
%s
static void *obj(size_t n, size_t al) { char *p; if (posix_memalign((void **)&p, 64, n + 64)) abort(); %s }
''' % ('void __msan_check_mem_is_initialized(const volatile void *, size_t);\nstatic void chk(void *p, size_t n) { __msan_check_mem_is_initialized(p, n); }' if kind == 'msan' else '',
       # address sanitizer: an own allocation of exactly n bytes, starting as little aligned as the type allows
       'free(p); return malloc(n);' if kind == 'msan' else 'free(p); size_t sh = %s; char *q; if (posix_memalign((void **)&q, 64, sh + n)) abort(); return q + sh;' % ('al % 64' if shift else '0'))
    rt = f['ret']
    ret = '' if rt['kind'] in ('void', 'struct') else B.rtype(rt) + ' r = '
    call = '%sw_%s(%s);' % (ret, s.fn, ', '.join(args))
    if kind == 'msan' and ret: chk.append('chk(&r, sizeof r);')
    return '\n'.join([B.wrap_source([s.fn], s.struct), hdr, 'int main(void) {'] + code + [call] + chk + ['return 0; }'])
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,shift,signed-integer-overflow,integer-divide-by-zero'], 'msan': ['-fsanitize=memory']}
def sanitize(s, env):
    """run the call natively under address+alignment and memory sanitizers -> report or None"""
    if not B.CFG[s.cfg].native: return None
    d = B.tmpdir(); n = 0
    for kind, shift in (('asan', 1), ('asan', 0), ('msan', 0)):
        n += 1; base = '%s/san_%d_%d' % (d, os.getpid(), n)
        open(base + '.c', 'w').write(driver(s, env, kind, shift))
        cf = [x for x in B.CFG[s.cfg].gcc() if x not in ('-O2', '-fPIC', '-shared')]
        r = B.run([B.CLANG, '-O0', '-g'] + cf + SAN[kind] + [base + '.c', '-o', base, '-lm'])
        if r.returncode: continue
        # the sanitizers reserve their shadow memory: lift the worker's own soft limit
        try: x = B.run(['prlimit', '--as=%s' % ('unlimited' if resource.getrlimit(resource.RLIMIT_AS)[1] < 0 else resource.getrlimit(resource.RLIMIT_AS)[1]), base] if shutil.which('prlimit') else [base], timeout=30, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0'))
        except Exception: continue
        finally: os.unlink(base)
        if x.returncode and 'failed to allocate' not in x.stderr and 'out of memory' not in x.stderr: return dict(sanitizer=kind, exit=x.returncode, report=[l for l in x.stderr.splitlines() if 'ERROR' in l or 'runtime error' in l or 'WARNING' in l or '#0' in l or '#1' in l][:6])
    return None

def task(args): return pairs.guarded(task_, args)
def task_(args, res):
    name, deadline, seed = args
    z3 = runner.W['z3']; st = res['st']
    q0, t0, c0 = z3.queries, z3.time, dict(z3.counts)
    tcap = time.time() + 45
    try:
        for build in JOBS[name]:
            if runner.enough(0): break
            if time.time() > deadline: res['incon'].append((name, 'time budget')); break
            try: s = build()
            except V.Skip as e: res['skips'].append(('', str(e))); continue
            except symex.Unsupported as e: res['incon'].append((name, 'not encodable: %s' % e)); continue
            r = s.r; st['encodings'] += 1; st['instructions'] += r.steps; res['funcs'] |= s.funcs; st['accesses'] += r.accesses; st['branches'] += len(r.ex.branches)
            for e in r.events:
                if e[0] == 'unwind': res['cut'] = e[2]
            q, n = accesses_query(r)
            v = z3.check(q, 30, None, None)[0]; st['paths'] += 1; st['claims'] += 1
            if v == 'unsat' and not s.claims: st['proven'] += 1; continue
            if v == 'unsat': st['proven'] += 1
            p = bits.BProver(s, z3, seed); p.bindall(); p.limit = 20; found = 0
            for kind, cl in zip(s.kinds, p.bound):
                st['claims'] += 1
                if found and time.time() > tcap: break
                t = pairs.timed(75, decide, p, cl, z3, min(20, max(3, tcap - time.time())), kind == 'uninit'); st['paths'] += p.npaths; p.npaths = 0
                if t[0] == 'proven': st['proven'] += 1; continue
                model = t[1] if t[0] == 'cex' and isinstance(t[1], dict) else None
                got = None
                for env in t[1] if isinstance(t[1], list) else [e[0] for e in pairs.lst(pairs.timed(40, p.search, cl, 300, model))[:3]]:
                    det = None
                    if B.CFG[s.cfg].native: det = sanitize(s, env); st['replays'] += 1
                    else: det = 'the solver\'s input evaluated on the %s IR' % s.cfg
                    if det: got = dict(unit=s.unit, config=s.cfg, claim=cl[3], detail=det, inputs={k: str(x) for k, x in env.items()}); break
                if got: res['viol'].append(got); st['violated'] += 1; found += 1; runner.count(1)
                else: res['incon'].append(('%s:%s' % (s.unit, cl[3]), 'not confirmed: %s' % (t[1] if isinstance(t[1], str) else 'model not reproduced')))
                if found >= 2 or time.time() > tcap + 60: break
            if v != 'unsat' and not found and not any(k != 'uninit' for k in s.kinds): res['incon'].append((s.unit, 'access query: ' + v))
            if len(res['viol']) >= 4 or res['viol'] and time.time() > tcap: break
        if not res['samples']: res['samples'].append(dict(unit=name, query=q[:300], accesses=n))
    except Exception as e:
        res['error'] = traceback.format_exc()[-1500:]; res['incon'].append((name, 'error: %r' % e))
    st['queries'] += z3.queries - q0; st['solver_ms'] += int((z3.time - t0)*1000)
    for k in z3.counts: st[k] += z3.counts[k] - c0.get(k, 0)
    return res

def pinned(p, cl):
    """the claim at inputs where the two fillings give different results, for the solver to confirm: everything is constant"""
    for env, g, _ in pairs.lst(pairs.timed(15, p.search, cl, 200, None))[:2]:
        cs = {}
        for nm, ty in p.extra_vars():
            if nm in env: cs[D.var(nm, ty).id] = D.fbits(hexf(env[nm]), 'f32') if ty == 'f32' else D.iconst(int(env[nm]), ty) if ty[0] == 'i' else None
        if any(v is None for v in cs.values()): continue
        rr = D.subst([x for x in cl[1:3] if x is not None], cs)
        p.limit = 8
        r = p.prove_claim((cl[0], rr[0], rr[1] if len(rr) > 1 else None, cl[3]))
        if r[0] == 'cex': return ('cex', [env])
    return None
def decide(p, cl, z3, t, uninit=False):
    """arithmetic uninterpreted first (comparisons exact), then bit-precise"""
    kind, a, b, label = cl
    L = pairs.ULow(); L.und = {}
    try:
        if kind == 'holds': goal = L.b(a)
        else:
            x, y = (L.fp(a), L.fp(b)) if a.ty[0] == 'f' else (L.b(a), L.b(b)) if a.ty == 'i1' else (L.bv(a), L.bv(b))
            goal = '(= %s %s)' % (x, y)
        p.npaths += 1
        if z3.check('\n'.join(L.lines) + '\n(assert (not %s))' % goal, min(6, t), None, None)[0] == 'unsat': return ('proven', 'unsat')
    except symex.Unsupported: pass
    if uninit:
        r = pinned(p, cl)
        if r: return r
    p.limit = min(10, t)
    return p.prove_claim(cl)

JOBS = {}
def run_jobs(chk, jobs):
    global JOBS
    JOBS = jobs
    deadline = chk.t0 + chk.budget
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 8), runner._init) as pool:
        guard.drain(pool, pool.imap_unordered(task, [(n, deadline, chk.seed) for n in jobs]), len(jobs), chk, runner.collect)
    chk.info['memory_accesses_checked'] = chk.stats['accesses']; chk.info['branches_checked'] = chk.stats['branches']
