"""Runs one property's check: builds every configuration, symbolically executes, proves, replays, writes evidence."""
import os, sys, time, json, random, importlib, multiprocessing as mp, traceback, signal
from fractions import Fraction
import numpy as np
from collections import Counter
from . import real as R_, dag as D, build as B, prove as V, replay, solver, concrete, exact, guard, defined

VERIF = B.VERIF
NATIVE = ['scalar', 'sse2', 'sse3', 'sse4', 'avx', 'fma']
CROSS = ['neon', 'neon32', 'wasm']
DEFAULT = NATIVE + CROSS

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.budget = 760 if tier == 'quick' else 3600
        self.viol = []; self.known = []; self.incon = []; self.samples = []
        self.stats = Counter(); self.skips = Counter(); self.perfn = set(); self.info = {}
        self.findings = load_findings(pid)
        self.level = 'model_checking'
        self.assumptions = []
    def left(self): return self.budget - (time.time() - self.t0)

def load_findings(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                body = l.split(' ', 2)[2]
                key = body.split(' -- ')[0].strip()
                out.append((key, body))
    return out

# ---------------------------------------------------------------- building
def compile_all(cfgs, names, struct=False, so=True, extra='', tag='w', all_clip=True):
    """-> (mods, lib paths)"""
    import concurrent.futures as cf
    mods = {}; libs = {}; errs = {}
    def ir(c):
        try: return c, B.load(c, names, struct, extra, tag)
        except B.BuildError as e: return c, e
    def sho(c):
        have = B.source_names()
        ns = [n for n in names if n in have and n in B.API]
        try: return c, replay.compile_so(c, ns, struct, extra, tag='r' + tag)
        except B.BuildError as e: return c, e
    with cf.ThreadPoolExecutor(9) as ex:
        fs = [ex.submit(ir, c) for c in cfgs]
        gs = [ex.submit(sho, c) for c in cfgs if so and B.CFG[c].native]
        for f in fs:
            c, m = f.result()
            if isinstance(m, Exception): errs[c] = str(m)
            else: mods[c] = m
        for f in gs:
            c, p = f.result()
            if isinstance(p, Exception): errs['so:' + c] = str(p)
            else: libs[c] = p
    return mods, libs, errs

# ---------------------------------------------------------------- worker for spec units
W = {}
FOUND = mp.Value('i', 0); START = time.time()
def count(n):
    with FOUND.get_lock(): FOUND.value += n
def enough(mine):
    """violations are already established: the rest of the work changes nothing in the answer"""
    return FOUND.value + mine >= 8 and time.time() - START > 100
def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN); guard.memory()
    W['z3'] = solver.Z3(); W['child'] = replay.Child()

def reset():
    """solver and replay process may be in the middle of an exchange"""
    W['z3'].kill(); W['child'].kill()
def unit_task(args):
    res = dict(unit=args[0], claims=[], viol=[], incon=[], skips=[], samples=[], funcs=set(), st=Counter())
    try:
        with guard.within(args[3] + 30 - time.time()): unit_task_(args, res)
    except guard.Timeout: reset(); res['incon'].append((args[0], 'time budget'))
    except Exception as e: res['error'] = traceback.format_exc()[-1500:]; res['incon'].append(('unit', 'error: %r' % e))
    if ERR: res.setdefault('error', ERR[0]); ERR.clear()
    return res
def attempt(p, cl, limit):
    p.limit = limit
    try:
        with guard.within(limit*1.5 + 10): p.setup(); return p.prove_claim(cl)
    except guard.Timeout: reset(); return ('inconclusive', 'time limit')
    except (MemoryError, RecursionError): reset(); return ('inconclusive', 'memory limit')
def refute(s, p, cl, raw, r, st):
    try:
        with guard.within(45): v = counterexample(s, p, cl, raw, r, W['child'], st)
        if v is None and r[0] == 'cex' and cl[0] in ('eq', 'holds'): v = clear_cut(s, p, cl, raw, st)
        return v
    except guard.Timeout: reset()
    except (MemoryError, RecursionError): reset()
    except Exception: ERR.append(traceback.format_exc()[-1500:])
    return None
ERR = []
def definite(s, p, cl, raw, model, child, st):
    """the deviation exceeds every rounding error the expression can pick up"""
    from . import runerr
    n = 0; rules = [(nm, V.N(e)) for nm, e in s.rules]
    for env, g in p.definite(cl, model):
        n += 1
        if n > 12: break
        vals, log = V.execute(s, env, g, W_libs.get(s.cfg), child)
        if not vals: continue
        st['replays'] += 1
        x = dict(env); x.update({k: Fraction(v) for k, v in g.items()})
        m = runerr.fails(cl, p.bassume, p.brules, x); o = runerr.fails(raw, s.assumes, rules, vals)
        if not m or not o: continue
        if raw[0] == 'eq' and not abs(m[0]-o[0]) <= max(abs(m[0])/4, 2*m[1]): continue
        return dict(unit=s.unit, config=s.cfg, claim=raw[3], detail='%s: %s' % (raw[3], 'got %r, expected %r, rounding accounts for %.2g' % (o[2], o[3], m[1]) if raw[0] == 'eq' else 'false, whatever the rounding'),
                    inputs={k: str(v) for k, v in env.items()}, calls=log,
                    how='compiled with gcc -O2 and called' if B.CFG[s.cfg].native else 'executed on the target IR semantics (no CPU of this kind here)')
    return None

def clear_cut(s, p, cl, raw, st):
    """the solver's model was too close to the border for the compiled code to show it: ask for one that is not"""
    for m in (0.25, 0.01):
        w = V.weaken(raw, Fraction(m))
        c = V.D.subst([w[1]], s.bind)[0]
        if c is cl[1]: return None
        r = attempt(p, (w[0], c, None, w[3]), 12)
        st['margin_queries'] += 1
        if r[0] != 'cex': continue
        with guard.within(30): v = counterexample(s, p, cl, raw, r, W['child'], st)
        if v: return v
    return None

def unit_task_(args, res):
    name, cfgs, seed, deadline = args
    u = W_units[name]; z3 = W['z3']
    st = res['st']; seen = {}
    q0, t0, c0 = z3.queries, z3.time, dict(z3.counts); hard = 0
    for cfg in cfgs:
        if enough(0): break
        if cfg not in W_mods: res['skips'].append((cfg, 'configuration does not build')); continue
        if time.time() > deadline: res['incon'].append((cfg + ':' + name, 'time budget')); continue
        s = W_cls[0](W_mods[cfg], cfg, name, W_tier)
        try: u.fn(s)
        except V.Skip as e: res['skips'].append((cfg, str(e))); continue
        except V.symex.Unsupported as e: res['incon'].append((cfg + ':' + name, 'not encodable: %s' % e)); continue
        st['encodings'] += 1; st['instructions'] += sum(r.steps for r in s.runs); st['forks'] += sum(r.forks for r in s.runs)
        for r in s.runs:
            for e in r.events:
                if e[0] == 'unwind': res['incon'].append((cfg + ':' + name, 'unwind: ' + e[2]))
        res['funcs'] |= s.funcs
        p = W_cls[1](s, z3, seed); p.bindall(); p.limit = 60
        # translator validation on concrete inputs
        ok, nv = validate(s, p, W['child'], seed)
        st['traces'] += nv
        if not ok:
            res['incon'].append((cfg + ':' + name, 'encoding disagrees with the compiled code on a concrete input')); continue
        fp = p.fingerprint()
        if fp in seen:
            st['same_encoding'] += 1; continue
        todo = []
        for i, cl in enumerate(p.bound):
            k = (cl[0], cl[1].id, cl[2].id if cl[2] is not None else None, fp[len(p.bound):])
            todo.append((i, cl, k))
        for i, cl, k in todo:
            if enough(0): break
            if k in seen: st['claims_same'] += 1; continue
            st['claims'] += 1
            # a short attempt, a look for a counterexample the real code confirms, then the long attempt
            left = deadline - time.time(); r = attempt(p, cl, max(5, min(12, left))); v = None
            if r[0] != 'proven':
                v = refute(s, p, cl, s.claims[i], r, st)
                if v is None and r[0] != 'cex' and hard < 8:
                    hard += 1; r = attempt(p, cl, max(5, min(90, deadline - time.time())))
                    if r[0] == 'cex': v = refute(s, p, cl, s.claims[i], r, st)
            if r[0] == 'proven': seen[k] = True; st['proven'] += 1; continue
            if v is not None:
                if len(res['viol']) < 6: res['viol'].append(v)
                count(1)
                st['violated'] += 1
                if st['violated'] > 12: break
            else: res['incon'].append(('%s:%s:%s' % (cfg, name, cl[3]), r[1] if isinstance(r[1], str) else 'solver model not reproduced on the code: %s' % {k: str(x)[:20] for k, x in list((r[1] or {}).items())[:8]}))
        if W_cls[1] is V.Prover: definedness(s, p, st, res, seen, deadline)
        st['paths'] += p.npaths
        if not res['viol']: seen[fp] = True
        if not res['samples']:
            if p.bound:
                cl = p.bound[0]
                res['samples'].append(dict(unit=name, config=cfg, claim=cl[3], encoded_lhs=D.show(cl[1], 4)[:300], encoded_rhs=D.show(cl[2], 4)[:300] if cl[2] is not None else 'true'))
        if st['violated'] > 12: break
    st['queries'] += z3.queries - q0; st['solver_ms'] += int((z3.time - t0)*1000)
    for k in z3.counts: st[k] += z3.counts[k] - c0.get(k, 0)

def definedness(s, p, st, res, seen, deadline):
    derive = os.environ.get('VERIF_DERIVE')
    for i, call in enumerate(s.calls):
        k = defined.key(W_pid, s.unit, i, call[1])
        if not derive and k not in W_total or time.time() > deadline - 30: continue
        obs = defined.obligations(call); ok = True
        for ob in obs:
            kk = ('def', ob[1].id)
            if kk in seen: ok = ok and seen[kk]; continue
            if st['violated'] > 3 or enough(0): break
            r = ('inconclusive', None)
            try:
                with guard.within(12): r = defined.prove(p, ob, 6)
            except guard.Timeout: reset()
            except (MemoryError, RecursionError, R_.NotReal, R_.TooBig, ZeroDivisionError, R_.NeedSplit): reset()
            st['defined_claims'] += 1
            seen[kk] = r[0] == 'proven'; ok = ok and seen[kk]
            if r[0] == 'proven': st['defined_proven'] += 1; continue
            if derive: break
            v = None
            if r[0] == 'cex':
                try:
                    with guard.within(40): v = defined.confirm(s, p, call, ob, r[1] if isinstance(r[1], dict) else None, W_libs.get(s.cfg), W['child'])
                except guard.Timeout: reset()
                except (MemoryError, RecursionError): reset()
            if v: res['viol'].append(v); count(1); st['violated'] += 1
            else: res['incon'].append(('%s:%s:%s' % (s.cfg, s.unit, ob[3]), str(r[1])[:150]))
        if derive and obs: open(derive, 'a').write('%s %s %d\n' % (k, s.cfg, ok))

def validate(s, p, child, seed, n=2):
    """the encoding of every call evaluated in IEEE arithmetic against the compiled function"""
    if s.cfg not in W_libs: return True, 0
    cnt = 0
    for e in p.draw(n):
        vals, log = V.execute(s, e, {}, W_libs[s.cfg], child)
        if vals is None: continue
        # evaluate cells with the actual inputs of each call
        env = V.DefEnv({k: np.array([float(v) if not isinstance(v, int) else v]) for k, v in e.items()})
        for (tag, fn, rec, consts, sizes, o, cells, retnode, init), lg in zip(s.calls, log):
            # re-run on the very floats passed to the binary
            key = (s.cfg, fn, tuple(sorted(consts.items())), tuple(sorted(sizes.items())))
            fr = FRESH.get(key)
            if fr is None:
                fr = FRESH[key] = V.B.symrun(s.mod, fn, consts, sizes=sizes)
            e2 = {}
            for nm, l in lg['inputs'].items():
                if len(l) == 1 and nm in fr.inputs and fr.inputs[nm] and fr.inputs[nm][0].op == 'var': e2[fr.inputs[nm][0].val] = np.array([l[0]])
                for i, v in enumerate(l): e2['%s[%d]' % (nm, i)] = np.array([v if fr_ty(fr, nm) != 'i' else int(v)])
            ev = concrete.Eval(V.DefEnv(e2), 1, 'ieee')
            roots = []; act = []
            for nm in lg['outputs']:
                if nm in fr.out and nm not in lg['inputs']:
                    for i, nd in enumerate(fr.out[nm]): roots.append(nd); act.append(lg['outputs'][nm][i])
            if fr.retnode is not None: roots.append(fr.retnode); act.append(lg['ret'])
            if any(x.op == 'undef' for x in D.postorder(roots)): continue
            try: got = ev(roots)
            except NotImplementedError: continue
            cnt += 1
            for nd, g, a in zip(roots, got, act):
                if nd.op == 'var' and nd.val not in e2: continue
                g = V.conv1(g[0], nd)
                if nd.ty == 'i1' or nd.ty[0] == 'i':
                    continue
                if np.isnan(g) and np.isnan(a): continue
                if not (np.isfinite(g) and np.isfinite(a)):
                    continue
                if abs(g-a) > 2e-3*(1+max(abs(g), abs(a))) and any(z.op in ('rcp', 'rsqrt') for z in D.postorder([nd])) is False:
                    sc = 1+max(abs(x) for l in lg['inputs'].values() for x in l)
                    if abs(g-a) > 2e-3*sc: return False, cnt
    return True, cnt
FRESH = {}
def fr_ty(fr, nm):
    l = fr.inputs.get(nm)
    return l[0].ty[0] if l else 'f'

PLAIN = {}
def plain(s):
    k = (s.cfg, tuple(sorted({c[1] for c in s.calls})))
    if k not in PLAIN:
        try: PLAIN[k] = replay.compile_so(s.cfg, list(k[1]), getattr(s, 'struct', False), opt='-O0', tag='o0_%d_%d' % (os.getpid(), len(PLAIN)))
        except (B.BuildError, OSError): PLAIN[k] = None
    return PLAIN[k]
def counterexample(s, p, cl, raw, r, child, st):
    """solver verdict + replay on the real code; None if not reproduced"""
    model = r[1] if r[0] == 'cex' and isinstance(r[1], dict) else None
    if cl[0] == 'domain':
        from . import domain
        cands = [(e, {}, 1.0) for e in domain.search(p, cl)]
    else: cands = p.search(cl, 500, model)
    conf = 0; und = any(z.op == 'undef' for z in V.D.postorder([x for x in cl[1:3] if x is not None]))
    for env, garbage, score in cands[:8]:
        if r[0] != 'cex':
            if conf >= 3: break
            conf += 1
            c = p.confirm(cl, env)
            st['confirm_queries'] += 1
            if c[0] not in ('cex', 'cex?'): continue
        vals, log = V.execute(s, env, garbage, W_libs.get(s.cfg), child)
        if vals is None:
            return dict(property=None, unit=s.unit, config=s.cfg, claim=raw[3], detail='call crashed', calls=log, inputs={k: str(v) for k, v in env.items()})
        bad, det = W_cls[2](s, raw, vals)
        st['replays'] += 1
        if not bad and W_cls[2] is V.judge: bad, det = V.sharp(s, p, raw, cl, env, garbage, vals)
        if bad:
            return dict(unit=s.unit, config=s.cfg, claim=raw[3], detail=det, inputs={k: str(v) for k, v in env.items()}, calls=log,
                        how='compiled with gcc -O2 and called' if B.CFG[s.cfg].native else 'executed on the target IR semantics (no CPU of this kind here)')
        if r[0] == 'cex' and raw[0] == 'eq' and W_cls[2] is not V.judge and B.CFG[s.cfg].native:
            # an optimiser may exploit what C leaves undefined (signed overflow); the code as written is what counts
            o0 = plain(s)
            vals, log = V.execute(s, env, garbage, o0, child) if o0 else (None, None)
            bad, det = W_cls[2](s, raw, vals) if vals else (False, '')
            if bad: return dict(unit=s.unit, config=s.cfg, claim=raw[3], detail=det, inputs={k: str(v) for k, v in env.items()}, calls=log, how='compiled with gcc -O0 and called')
        if und and r[0] == 'cex':
            # the value comes from memory nobody wrote: what one compiled binary finds there proves nothing
            vals, log = V.execute(s, env, garbage, None, child)
            bad, det = W_cls[2](s, raw, vals) if vals else (False, '')
            if bad:
                return dict(unit=s.unit, config=s.cfg, claim=raw[3], detail=det + ' (depends on memory nobody wrote)', inputs={k: str(v) for k, v in env.items()}, calls=log, how='executed on the IR semantics')
    if r[0] == 'cex' and raw[0] in ('eq', 'holds') and W_cls[2] is V.judge:
        v = definite(s, p, cl, raw, model, child, st)
        if v: return v
    if raw[0] != 'holds' or r[0] == 'proven': return None
    # ties: inputs on which no operation rounds, judged without tolerance
    n = 0
    for env in p.ties(cl, model):
        n += 1
        if n > 6: break
        vals, log = V.execute(s, env, {}, W_libs.get(s.cfg), child)
        if vals is None: continue
        st['replays'] += 1
        if exact.false_at(raw, s.assumes, [(nm, V.N(e)) for nm, e in s.rules], vals):
            return dict(unit=s.unit, config=s.cfg, claim=raw[3], detail='false (inputs on which no operation rounds)', inputs={k: str(v) for k, v in env.items()}, calls=log,
                        how='compiled with gcc -O2 and called' if B.CFG[s.cfg].native else 'executed on the target IR semantics (no CPU of this kind here)')
    return None

# ---------------------------------------------------------------- spec properties
class Unit:
    def __init__(self, name, fn, cfgs, thorough_only=False): self.name = name; self.fn = fn; self.cfgs = cfgs; self.thorough_only = thorough_only
REG = {}
def unit(cfgs=None, name=None, **params):
    def deco(fn):
        n = name or fn.__name__
        m = sys.modules[fn.__module__]
        if not hasattr(m, 'UNITS'): m.UNITS = {}
        f = (lambda s: fn(s, **params)) if params else fn
        m.UNITS[n] = Unit(n, f, cfgs)
        return fn
    return deco
def units(items, cfgs=None):
    """register one unit per (name, params) pair"""
    def deco(fn):
        m = sys.modules[fn.__module__]
        if not hasattr(m, 'UNITS'): m.UNITS = {}
        for nm, params in items:
            m.UNITS[nm] = Unit(nm, (lambda s, params=params: fn(s, **params)), cfgs)
        return fn
    return deco

def run_units(chk, mod):
    global W_units, W_mods, W_libs, W_tier, W_cls, W_pid, W_total
    W_pid = chk.pid; W_total = set(json.load(open(VERIF + '/total.json'))) if os.path.exists(VERIF + '/total.json') else set()
    W_cls = (V.Spec, V.Prover, V.judge)
    if getattr(mod, 'MODE', 'real') == 'bits':
        from . import bits
        W_cls = (bits.BSpec, bits.BProver, bits.judge)
    W_units = mod.UNITS; W_tier = chk.tier
    cfgs = getattr(mod, 'CFGS', DEFAULT)
    allc = sorted(set(c for u in W_units.values() for c in (u.cfgs or cfgs)), key=lambda c: list(B.CFG).index(c))
    names = getattr(mod, 'SHIM_NAMES', None) or [n for n in B.API if n.startswith('glm_')]
    W_mods, W_libs, errs = compile_all(allc, names, getattr(mod, 'STRUCT', False))
    chk.info['build_errors'] = {k: v[:300] for k, v in errs.items()}
    if not W_mods: raise SystemExit('no configuration builds: %s' % errs)
    chk.info['configurations'] = sorted(W_mods)
    deadline = chk.t0 + chk.budget
    tasks = [(n, [c for c in (u.cfgs or cfgs)], chk.seed, deadline) for n, u in W_units.items()]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 8), _init) as pool:
        guard.drain(pool, pool.imap_unordered(unit_task, tasks), len(tasks), chk, collect)

def collect(chk, r):
    chk.stats.update(r['st']); chk.perfn |= set(r['funcs'])
    chk.incon += r['incon']
    for c, w in r['skips']: chk.skips['%s: %s' % (r['unit'], w)] += 1
    chk.samples += r['samples']
    for v in r['viol']: chk.viol.append(v)
    if r.get('cut'): chk.info.setdefault('bounded_loops', {})[r['unit']] = r['cut']
    if r.get('error'): chk.info.setdefault('errors', []).append(r['error'])
    if os.environ.get('VERBOSE'):
        print('  %-28s %s' % (r['unit'], dict(r['st'])), [i for i in r['incon']][:4], r['skips'][:2], file=sys.stderr)
        if r.get('error'): print(r['error'], file=sys.stderr)

def finish(chk, coverage_extra=None):
    pid = chk.pid
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    rd = VERIF + '/replays/' + pid
    new = 0; shown = set()
    for v in chk.viol:
        key = '%s/%s/%s' % (v.get('unit'), v.get('config'), v.get('claim'))
        hit = None
        for k, body in chk.findings:
            ku = dict(x.split('=', 1) for x in k.split() if '=' in x)
            if ku.get('unit') == v.get('unit') and (ku.get('claim') in (None, v.get('claim'))) and (ku.get('config') in (None, v.get('config'))): hit = body; break
        if hit:
            if hit not in shown: print('KNOWN-FINDING: property=%s %s' % (pid, hit)); shown.add(hit)
            continue
        new += 1
        if new <= 10:
            os.makedirs(rd, exist_ok=True)
            f = '%s/%d.json' % (rd, new)
            v['property'] = pid
            json.dump(v, open(f, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, f))
            print('   unit=%s config=%s claim=%s : %s' % (v.get('unit'), v.get('config'), v.get('claim'), str(v.get('detail'))[:300]))
    st = chk.stats
    rnd = lambda l, n: [l[i] for i in sorted(random.Random(chk.seed).sample(range(len(l)), min(n, len(l))))]
    if chk.level == 'translation_validation':
        cov = dict(programs=st['programs'], disagreements_checked=st['disagreements'])
    else:
        cov = dict(states=st['paths'], transitions=st['instructions'], traces_validated_against_impl=st['traces'])
    cov['samples'] = rnd(chk.samples, 6) or [dict(note='no sample')]
    cov.update(functions_encoded=len(chk.perfn), claims_decided=st['claims'], claims_proven=st['proven'], claims_same_encoding=st['claims_same'],
               encodings=st['encodings'], configurations_sharing_an_encoding=st['same_encoding'],
               queries=st['queries'], solver_time_s=round(st['solver_ms']/1000, 2), verdicts={k: st[k] for k in ('unsat', 'sat', 'unknown')},
               inconclusive=['%s: %s' % (a, b) for a, b in chk.incon][:40], inconclusive_count=len(chk.incon),
               skipped=dict(chk.skips.most_common(20)), function_names=sorted(chk.perfn)[:400])
    for k in ('congruence_unsat', 'congruence_unknown', 'congruence_sat', 'identical', 'defined_claims', 'defined_proven'):
        if st[k]: cov[k] = st[k]
    cov.update(chk.info)
    if coverage_extra: cov.update(coverage_extra)
    ev = dict(property=pid, tier=chk.tier, seed=chk.seed, level=chk.level, coverage=cov,
              assumptions=chk.assumptions, wall_s=round(time.time()-chk.t0, 2), violations=new)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1, default=str)
    print('%s: %d claims decided, %d proven, %d inconclusive, %d violations (%d new), %.1f s' % (pid, st['claims'], st['proven'], len(chk.incon), len(chk.viol), new, time.time()-chk.t0))
    if os.environ.get('VERBOSE'):
        for a, b in chk.incon[:60]: print('   inconclusive', a, b)
    return 1 if new else 0

REALS = ['floating point is interpreted as exact real arithmetic (statements are "up to rounding"); every counterexample is replayed in IEEE arithmetic on the compiled code',
         'rcp/rsqrt estimate instructions are taken as exact', 'float constants nearest to a rational multiple of pi or to a short decimal stand for that value']

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
    chk = Check(pid, tier)
    mod = importlib.import_module('specs.' + pid.lower())
    if getattr(mod, 'ASSUME', None): chk.assumptions += mod.ASSUME
    if hasattr(mod, 'run'): rc = mod.run(chk)
    else:
        chk.assumptions += REALS
        run_units(chk, mod)
        rc = None
    sys.exit(finish(chk) if rc is None else rc)
