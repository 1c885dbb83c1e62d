"""Hardware reciprocal and reciprocal-square-root estimates.

Everywhere else an estimate node is read as the exact value.  Here the code around it has to show that this is legitimate:
with r = (1+e)/x (or (1+e)/sqrt x) for every e the hardware may return, each value g(x, r) that leaves the neighbourhood of the
estimate has to lie within 2^-20 of g at the exact reciprocal, relatively, for all x.  One solver query per such value."""
import random
from fractions import Fraction
import numpy as np
from . import dag as D, build as B, prove as V, concrete, runner, symex
from .expr import X, N, rc

PREC = Fraction(1, 2**20)
ARITH = ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fma', 'fpext', 'fptrunc')
def bound(cfg): return Fraction(3, 2**13) if B.CFG[cfg].native else Fraction(1, 2**8)

def exposed(outs):
    """-> [(estimate node, value leaving its neighbourhood)]"""
    order = D.postorder(outs); par = {}
    for n in order:
        for a in n.args: par.setdefault(a.id, []).append(n)
    roots = {n.id for n in outs}; res = []
    for r in order:
        if r.op not in ('rcp', 'rsqrt'): continue
        x = r.args[0]; near = {r.id: True, x.id: False}       # id -> depends on r
        for n in order:
            if n.id in near: continue
            if n.op == 'const': near[n.id] = False
            elif n.op in ARITH and all(a.id in near for a in n.args): near[n.id] = any(near[a.id] for a in n.args)
        for n in order:
            if near.get(n.id) and (n.id in roots or any(p.id not in near for p in par.get(n.id, []))): res.append((r, n))
    return res

def smt(g, r, x, rt, memo):
    def go(n):
        if n is r: return rt
        if n is x: return 'x'
        if n.op == 'const':
            f = Fraction(D.fval(n)); return '(/ %s %d.0)' % (('%d.0' % f.numerator) if f.numerator >= 0 else '(- %d.0)' % -f.numerator, f.denominator)
        k = (n.id, rt)
        if k not in memo:
            a = [go(z) for z in n.args]
            memo[k] = {'fadd': '(+ %s)', 'fsub': '(- %s)', 'fmul': '(* %s)', 'fdiv': '(/ %s)', 'fneg': '(- %s)'}.get(n.op, '%s') % ' '.join(a) if n.op != 'fma' else '(+ (* %s %s) %s)' % tuple(a)
        return memo[k]
    return go(g)

def accurate(z3, r, g, e, t=20):
    x = r.args[0]; m = {}
    lines = ['(declare-const x Real)(declare-const e Real)(declare-const s Real)']
    if r.op == 'rcp': lines.append('(assert (= (* s x) 1.0))')
    else: lines.append('(assert (> x 0.0))(assert (> s 0.0))(assert (= (* s s x) 1.0))')
    q = lambda f: '(/ %d.0 %d.0)' % (f.numerator, f.denominator)
    lines.append('(assert (<= (- %s) e %s))' % (q(e), q(e)))
    a = smt(g, r, x, '(* s (+ 1.0 e))', m); b = smt(g, r, x, 's', m)
    lines.append('(define-fun ga () Real %s)(define-fun gb () Real %s)' % (a, b))
    p = q(PREC)
    lines.append('(assert (or (> (- ga gb) (* %s gb)) (< (- ga gb) (- (* %s gb)))))(assert (>= gb 0.0))' % (p, p))
    v1 = z3.check('\n'.join(lines), t)[0]
    lines[-1] = '(assert (or (> (- ga gb) (- (* %s gb))) (< (- ga gb) (* %s gb))))(assert (< gb 0.0))' % (p, p)
    if v1 == 'sat': return v1
    v2 = z3.check('\n'.join(lines), t)[0]
    return 'unsat' if v1 == v2 == 'unsat' else 'sat' if v2 == 'sat' else 'unknown'

def decide(s, ap, z3, child, st, pairs):
    """estimates in side b of a pair"""
    viol = []; inc = []
    outs = [cl[1] for cl in ap.bound if cl[1].ty[0] == 'f']
    ex = exposed(outs) if any(n.op in ('rcp', 'rsqrt') for n in D.postorder(outs)) else []
    if not ex: return viol, inc
    e = bound(s.b.cfg); bad = []; memo = {}
    for r, g in ex:
        st['claims'] += 1; st['estimate_claims'] += 1
        v = accurate(z3, r, g, e)
        if v == 'unsat': st['proven'] += 1
        else: bad.append((r, g, v))
    if not bad: return viol, inc
    # which outputs see it, and where: the estimate off by E, decided over the whole function and replayed
    ev = D.var('estimate error'); sub = {r.id: D.fmul(r, D.fadd(D.fconst(1.0), ev)) for r, g, v in bad}
    rng = random.Random(1)
    for i, cl in enumerate(ap.bound):
        if cl[1].ty[0] != 'f': continue
        c2 = D.subst([cl[1]], sub)[0]
        if c2 is cl[1]: continue
        p = pairs.RProver(s, z3, 1); p.bindall(); p.bassume = list(ap.bassume); lim = float(e)
        q = ('eq', c2, cl[1], cl[3]); p.bound = [q]; p.limit = 20
        p.bassume += [D.fcmp('ole', ev, rc(e)), D.fcmp('ole', rc(-e), ev)]
        old = s.samplers; s.samplers = old + [lambda rng: {'estimate error': Fraction(rng.choice([-1, 1]))*e}]
        try:
            c = pairs.timed(40, pairs.setup_prove, p, q)
            if c[0] == 'proven': continue
            envs = []
            model = c[1] if c[0] == 'cex' and isinstance(c[1], dict) else None
            if model:
                mx = max([abs(x) for x in model.values() if isinstance(x, Fraction)] + [Fraction(1)])
                for k in range(24):
                    env = dict(p.draw(1)[0])
                    for nm, x in model.items():
                        if nm in env and isinstance(x, Fraction):
                            u = Fraction(rng.randint(0, 96), 64)
                            env[nm] = x*(1+u) if x and k % 4 else x if x else mx*u if k % 2 else x
                    envs.append((env, {}))
            envs += [(env, g) for env, g, _ in pairs.lst(pairs.timed(30, p.search, q, 300, None))]
        finally: s.samplers = old
        v = None
        for env, g in envs[:40]:
            env = {n: x for n, x in env.items() if n != 'estimate error'}
            concrete.EST = float(e)
            try: vals, log = pairs.execute(s, env, g, child)
            finally: concrete.EST = 0.0
            for raw in s.claims if vals is not None else ():
                if not all(np.isfinite(float(vals[z.val][0])) for z in raw[1:3]): continue
                bad_, det = pairs.judge(s, raw, vals, 4e-6)
                if bad_ and raw[1].ty[0] == 'f': v = dict(unit=s.unit, config=s.b.cfg, claim=raw[3], detail=det, inputs={k: str(x) for k, x in env.items()}, calls=log); break
            st['replays'] += 1
            if v: break
        if v: v['detail'] += ' (hardware estimate used without refinement)'; viol.append(v); st['violated'] += 1; return viol, inc
    inc.append((s.unit, 'estimate accuracy: %s, not visible in the compiled code' % bad[0][2]))
    return viol, inc
