"""Definedness: no division by zero, square root of a negative number or arc function outside [-1, 1] on any input a unit admits.
total.json lists the calls of the units for which this holds (derived once on the tree as given); those are enforced."""
import json, os, math, time
import numpy as np
from . import dag as D, build as B, prove as V, real as R, concrete

def reaches(roots):
    """{node id: condition under which its value is part of a root's value}"""
    C = {r.id: D.TRUE for r in roots}
    for n in reversed(D.postorder(roots)):
        r = C.get(n.id)
        if r is None: continue
        def add(m, c): C[m.id] = D.or_(C[m.id], c) if m.id in C else c
        if n.op == 'ite':
            add(n.args[0], r); add(n.args[1], D.and_(r, n.args[0])); add(n.args[2], D.and_(r, D.not_(n.args[0])))
        elif n.op == 'and' and n.ty == 'i1': add(n.args[0], r); add(n.args[1], r)
        else:
            for m in n.args: add(m, r)
    return C
def bad(n):
    c = lambda k, x: D.fconst(k, x.ty)
    if n.op == 'fdiv' or n.op == 'fmod': x = n.args[1]; return D.fcmp('oeq', x, c(0.0, x)), 'division by zero'
    if n.op == 'rcp': x = n.args[0]; return D.fcmp('oeq', x, c(0.0, x)), 'reciprocal of zero'
    if n.op == 'rsqrt': x = n.args[0]; return D.fcmp('ole', x, c(0.0, x)), 'reciprocal square root of a number that is not positive'
    if n.op == 'sqrt': x = n.args[0]; return D.fcmp('olt', x, c(0.0, x)), 'square root of a negative number'
    if n.op == 'log': x = n.args[0]; return D.fcmp('ole', x, c(0.0, x)), 'logarithm of a number that is not positive'
    if n.op in ('acos', 'asin'): x = n.args[0]; return D.or_(D.fcmp('olt', c(1.0, x), x), D.fcmp('olt', x, c(-1.0, x))), n.op + ' outside [-1, 1]'
    return None
def square(x):
    """syntactically a sum of squares"""
    if x.op == 'fadd': return all(square(a) for a in x.args)
    if x.op == 'fma': return x.args[0] is x.args[1] and square(x.args[2])
    return x.op == 'fmul' and x.args[0] is x.args[1] or x.op == 'const' and D.fval(x) >= 0
def obligations(call):
    tag, fn, rec, consts, sizes, o, cells, retnode, init = call
    # destinations' own earlier contents are no result
    roots = [n for l in cells.values() for n in l if n.op not in ('var', 'const')] + ([retnode] if retnode is not None else [])
    C = reaches(roots); out = []; seen = set()
    for n in D.postorder(roots):
        t = bad(n)
        if t is None or n.id not in C: continue
        if n.op == 'sqrt' and square(n.args[0]): continue
        g = D.not_(D.and_(C[n.id], t[0]))
        if g.id in seen or g is D.TRUE: continue
        seen.add(g.id); out.append(('holds', g, None, '%s: %s' % (fn, t[1])))
    return out
def prove(p, ob, limit):
    p.limit = limit; p.setup()
    return p.prove_claim(ob, True)
def key(pid, unit, i, fn): return '%s/%s/%d/%s' % (pid, unit, i, fn)
def confirm(s, p, call, ob, model, lib, child):
    """an input for which the compiled function returns something that is not a number"""
    tag = call[0]; n = 0; dead = time.time() + 25
    def cands():
        yield from ((e, g) for e, g, _ in p.search(ob, 200, model))
        yield from ((e, {}) for e in p.ties(ob, model))
    for env, g in cands():
        n += 1
        if n > 30 or time.time() > dead: break
        for l in ((lib, None) if lib else (None,)):
            vals, log = V.execute(s, env, g, l, child)
            if not vals: continue
            ev = concrete.Eval(V.DefEnv(vals), 1, 'real')
            if any(V.tri(ev, t, 1e-6)[0] == 0 for t in s.assumes): continue
            if any(abs(float(ev([D.var(nm)])[0][0])**2 - float(ev([V.N(e)])[0][0])) > 1e-5 for nm, e in s.rules): continue
            w = {k: float(v[0]) for k, v in vals.items() if k.startswith(tag + '.') and '.in[' not in k}
            k = [x for x in w if not math.isfinite(w[x])]
            if k: return dict(unit=s.unit, config=s.cfg, claim=ob[3], detail='%s = %r' % (k[0], w[k[0]]), inputs={a: str(b) for a, b in env.items()}, calls=log,
                              how='compiled with gcc -O2 and called' if l else 'executed on the IR semantics')
    return None
