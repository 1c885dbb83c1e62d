"""C23 integer vectors over the whole int range (bit-precise)"""
from engine.bits import *
from engine import dag as D
from engine.runner import unit, units
MODE = 'bits'
DIM = (2, 3, 4)
LO, HI = -2**31, 2**31-1
def W(v): return v.wide() if isinstance(v, I) else I(D.iconst(v, 'i64'))
def imin(a, b): return where(a < b, a, b)
def imax(a, b): return where(a > b, a, b)
def exact(c, out, e, label):
    """out is the exact (64-bit) value e; where e does not fit an int the property is silent"""
    for i, (o, v) in enumerate(zip(out, e) if isinstance(out, list) else [(out, e)]):
        fit(c, v); c.eq(o, v.low(), '%s[%d]' % (label, i))
def fit(c, *vs):
    for v in vs: c.assume_soft(v >= LO); c.assume_soft(v <= HI)

BIN = {'add': lambda a, b: a+b, 'sub': lambda a, b: a-b, 'mul': lambda a, b: a*b, 'maxv': imax, 'minv': imin}
SC = {'adds': lambda a, s: a+s, 'subs': lambda a, s: a-s, 'scale': lambda a, s: a*s}
ACC = {'addadd': lambda d, a, b: (d, a+b), 'subadd': lambda d, a, b: (d, a-b), 'muladd': lambda d, a, b: (d, a*b), 'maxadd': lambda d, a, b: (d, imax(a, b)), 'minadd': lambda d, a, b: (d, imin(a, b)),
       'subsub': lambda d, a, b: (d, -(a-b)), 'addsub': lambda d, a, b: (d, -(a+b)), 'mulsub': lambda d, a, b: (d, -(a*b)), 'maxsub': lambda d, a, b: (d, -imax(a, b)), 'minsub': lambda d, a, b: (d, -imin(a, b))}
ACCS = {'muladds': lambda d, a, s: (d, a*s), 'mulsubs': lambda d, a, s: (d, -(a*s)), 'addadds': lambda d, a, s: (d, a+s), 'subadds': lambda d, a, s: (d, a-s), 'addsubs': lambda d, a, s: (d, -(a+s)), 'subsubs': lambda d, a, s: (d, -(a-s))}
@units([('ivec%d_%s' % (n, k), dict(n=n, k=k)) for n in DIM for k in list(BIN) + list(SC) + list(ACC) + list(ACCS)])
def arith(c, n, k):
    f_ = 'glm_ivec%d_%s' % (n, k); a = c.ivec('a', n)
    if k in BIN:
        b = c.ivec('b', n); exact(c, c.call(f_, a, b).dest, [BIN[k](W(p), W(q)) for p, q in zip(a, b)], k)
    elif k in SC:
        s = c.iscalar('s'); exact(c, c.call(f_, a, s).dest, [SC[k](W(p), W(s)) for p in a], k)
    else:
        d = c.ivec('d', n)
        b = c.ivec('b', n) if k in ACC else [c.iscalar('s')]*n
        o = c.call(f_, a, b if k in ACC else b[0], d).dest
        op = {**ACC, **ACCS}[k]
        for i in range(n):
            z, t = op(W(d[i]), W(a[i]), W(b[i])); fit(c, t, -t); exact(c, [o[i]], [z+t], '%s %d' % (k, i))
@units([('ivec%d_%s' % (n, k), dict(n=n, k=k)) for n in DIM for k in ('div', 'mod', 'divs')])
def division(c, n, k):
    a = c.ivec('a', n, gendiv)
    b = [c.iscalar('s', gendiv)]*n if k == 'divs' else c.ivec('b', n, gendiv)
    for p, q in zip(a, b): c.assume(q.ne(0)); c.assume(~(p.eq(LO) & q.eq(-1)))
    o = c.call('glm_ivec%d_%s' % (n, k), a, b[0] if k == 'divs' else b).dest
    c.eq(o, [p.srem(q) if k == 'mod' else p.sdiv(q) for p, q in zip(a, b)], 'truncated ' + ('remainder' if k == 'mod' else 'quotient'))
def gendiv(ns): return lambda rng: {n: rng.choice([1, -1, 2, -2, 3, -7, 7, 10, -10, rng.randint(-50, 50), rng.randint(-10**9, 10**9), HI, LO]) for n in ns}

@units([('dot%d' % n, dict(n=n)) for n in (2, 3)])
def dot_(c, n):
    a, b = c.ivec('a', n, gensmall), c.ivec('b', n, gensmall); p = [W(x)*W(y) for x, y in zip(a, b)]
    fit(c, *p); s = p[0]
    for q in p[1:]: s = s+q; fit(c, s)
    exact(c, c.call('glm_ivec%d_dot' % n, a, b).ret, s, 'dot')
def gensmall(ns): return lambda rng: {n: rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-10000, 10000)]) for n in ns}
@unit()
def cross2(c):
    a, b = c.ivec('a', 2, gensmall), c.ivec('b', 2, gensmall); p, q = W(a[0])*W(b[1]), W(a[1])*W(b[0]); fit(c, p, q)
    exact(c, c.call('glm_ivec2_cross', a, b).ret, p-q, 'cross')
def sumsq(c, d):
    fit(c, *d); p = [e*e for e in d]; fit(c, *p); s = p[0]
    for q in p[1:]: s = s+q; fit(c, s)
    return s
@units([('distance%d' % n, dict(n=n)) for n in DIM])
def distance(c, n):
    a, b = c.ivec('a', n, gensmall), c.ivec('b', n, gensmall)
    s = sumsq(c, [W(x)-W(y) for x, y in zip(a, b)])
    exact(c, c.call('glm_ivec%d_distance2' % n, a, b).ret, s, 'distance2')
    c.eq(c.call('glm_ivec%d_distance' % n, a, b).ret, call1('sqrt', s.low().tof()), 'distance')
@unit()
def norm3(c):
    v = c.ivec('v', 3, gensmall); s = sumsq(c, [W(x) for x in v]); c.assume_soft(s <= 2**24)
    exact(c, c.call('glm_ivec3_norm2', v).ret, s, 'norm2')
    c.eq(c.call('glm_ivec3_norm', v).ret, I(D.mk('fptosi', 'i32', (call1('sqrt', s.low().tof()).n,))), 'norm')
@units([('clamp%d' % n, dict(n=n)) for n in DIM])
def clamp(c, n):
    v, lo, hi = c.ivec('v', n), c.iscalar('lo'), c.iscalar('hi'); c.assume(lo <= hi)
    c.eq(c.call('glm_ivec%d_clamp' % n, v, lo, hi).v, [where(e < lo, lo, where(e > hi, hi, e)) for e in v], 'clamp')
@units([('abs%d' % n, dict(n=n)) for n in DIM])
def absolute(c, n):
    v = c.ivec('v', n)
    exact(c, c.call('glm_ivec%d_abs' % n, v).dest, [where(W(e) < 0, -W(e), W(e)) for e in v], 'abs')
def B(o): return P(tobool(o.ret))
def conj_(l):
    r = P(D.TRUE)
    for p in l: r = r & p
    return r
@units([('eq%d' % n, dict(n=n)) for n in (2, 3)])
def equal(c, n):
    v, w, s = c.ivec('v', n, gentie), c.ivec('w', n, gentie), c.iscalar('s', gentie)
    c.holds(B(c.call('glm_ivec%d_eq' % n, v, s)).iff(conj_([e.eq(s) for e in v])), 'eq')
    c.holds(B(c.call('glm_ivec%d_eqv' % n, v, w)).iff(conj_([a.eq(b) for a, b in zip(v, w)])), 'eqv')
def gentie(ns): return lambda rng: {n: rng.choice([1, 1, 1, 1, 2]) for n in ns}
@unit()
def fills(c):
    s = c.iscalar('s')
    for n in (2, 3): c.eq(c.call('glm_ivec%d_fill' % n, v=c.ivec('v%d' % n, n), val=s).v, [s]*n, 'fill%d' % n)
    for n in DIM:
        v = c.ivec('u%d' % n, n)
        c.eq(c.call('glm_ivec%d_copy' % n, v).dest, v, 'copy%d' % n)
        c.eq(c.call('glm_ivec%d_zero' % n, v=v).v, [0]*n, 'zero%d' % n); c.eq(c.call('glm_ivec%d_one' % n, v=v).v, [1]*n, 'one%d' % n)
        c.eq(c.call('glm_x_ivec%d_zero' % n).dest, [0]*n, 'IVEC%d_ZERO' % n); c.eq(c.call('glm_x_ivec%d_one' % n).dest, [1]*n, 'IVEC%d_ONE' % n)
@unit()
def convert(c):
    v2, v3, v4, s = c.ivec('a', 2), c.ivec('b', 3), c.ivec('d', 4), c.iscalar('s')
    c.eq(c.call('glm_ivec2', v2).dest, v2, 'ivec2'); c.eq(c.call('glm_ivec3', v4).dest, v4[:3], 'ivec3(ivec4)'); c.eq(c.call('glm_ivec4', v3, s).dest, v3 + [s], 'ivec4(ivec3, last)')
@unit()
def scalar(c):
    a, b = c.iscalar('a'), c.iscalar('b')
    c.eq(c.call('glm_imin', a, b).ret, imin(a, b), 'imin'); c.eq(c.call('glm_imax', a, b).ret, imax(a, b), 'imax')
    c.eq(c.call('glm_sign', a).ret, where(a > 0, 1, where(a < 0, -1, I(D.iconst(0)))), 'sign')
