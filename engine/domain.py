"""Rounding-proof domains: no selected acos/asin/sqrt gets an argument outside its domain, whatever the rounded values of the
subexpressions are.  Arithmetic below a cut depth is replaced by arbitrary floats (an over-approximation), so `unsat` holds for
every rounding; a model is only a candidate and is searched for on concrete floats."""
import numpy as np
from fractions import Fraction
from . import dag as D, bits as BT, concrete

FUN = ('acos', 'asin', 'sqrt')
ARITH = ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'sqrt', 'rcp', 'rsqrt', 'sin', 'cos', 'tan', 'atan', 'atan2', 'acos', 'asin', 'pow', 'exp', 'log', 'fmod', 'frombits', 'fptrunc', 'fpext')

class Cut(BT.Low):
    def __init__(self, keep): super().__init__(); self.keep = keep
    def fp_(self, n):
        if n.op in ARITH and n.id not in self.keep and not self.exact(n):
            return self.fresh(BT.fsort(n.ty))
        return super().fp_(n)
    def bv_(self, n):
        if n.op in ('and', 'or', 'xor') and n.id not in self.keep: return self.fresh('(_ BitVec %d)' % D.bits_of(n.ty))
        return super().bv_(n)

def reaches(root):
    """{node: condition under which its value is part of root's value}"""
    R = {root.id: D.TRUE}; order = D.postorder([root])
    for n in reversed(order):
        r = R.get(n.id)
        if r is None: continue
        def add(m, c):
            R[m.id] = D.or_(R[m.id], c) if m.id in R else c
        if n.op == 'ite' and n.ty != 'i1':
            add(n.args[1], D.and_(r, n.args[0])); add(n.args[2], D.and_(r, D.not_(n.args[0])))
        elif n.ty == 'i1': continue
        else:
            for m in n.args: add(m, r)
    return R

def prove(prover, cl):
    root = cl[1]; R = reaches(root); worst = None
    for n in D.postorder([root]):
        if n.op not in FUN or n.id not in R: continue
        x = n.args[0]; ok = False
        for depth in range(0, 5):
            keep = set(); front = [x]
            for _ in range(depth):
                for m in front: keep.add(m.id)
                front = [a for m in front for a in m.args]
            L = Cut(keep); r = L.b(R[n.id]); v = L.fp(x); ty = x.ty
            c = lambda k: L.fp(D.fconst(k, ty))
            bad = '(fp.lt %s %s)' % (v, c(0.0)) if n.op == 'sqrt' else '(or (fp.lt %s %s) (fp.gt %s %s))' % (v, c(-1.0), v, c(1.0))
            prover.npaths += 1
            v_, _ = prover.z3.check('\n'.join(L.lines) + '\n(assert %s)(assert %s)' % (r, bad), min(20, prover.limit), None, None)
            if v_ == 'unsat': ok = True; break
            if v_ == 'unknown': break
        if not ok: worst = n; break
    return ('proven', 'unsat') if worst is None else ('cex', None)

def search(prover, cl, n=40000):
    """finite inputs for which the value is NaN in IEEE arithmetic"""
    envs = prover.draw(n); names = list(envs[0])
    env = {k: np.array([float(np.float32(float(e[k]))) for e in envs]) for k in names}
    # every other input: arguments at scales of their own, some components or whole arguments zero
    groups = {}
    for k in names: groups.setdefault(k.split('[')[0], []).append(k)
    half = n//2; R = np.random.default_rng(prover.rng.randrange(2**31))
    for g, ks in groups.items():
        sc = np.where(R.random(half) < .15, 0.0, np.where(R.random(half) < .5, 1.0, 10.0**R.integers(-8, 3, half)))
        for k in ks:
            if isinstance(envs[0][k], Fraction): env[k][:half] = (env[k][:half]*sc*(R.random(half) < .85)).astype(np.float32).astype(float)
    class Dft(dict):
        def __missing__(s, k): return np.full(n, 0.5)
    ev = concrete.Eval(Dft(env), n, 'ieee')
    try: v = ev([cl[1]])[0]
    except NotImplementedError: return []
    out = np.zeros(n, bool)
    for f in D.postorder([cl[1]]):
        if f.op in FUN:
            x = ev([f.args[0]])[0]
            with np.errstate(all='ignore'): out |= np.isfinite(x) & ((x < 0) if f.op == 'sqrt' else (np.abs(x) > 1))
    idx = np.nonzero(np.isnan(v) & out)[0]
    return [{k: Fraction(float(env[k][i])) for k in names} for i in idx[:10]]
