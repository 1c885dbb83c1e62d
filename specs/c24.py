"""C24 comparisons, min/max, clamp, sign, predicates, copies over all 2^32 float patterns (bit-precise)"""
from engine.bits import *
from engine import dag as D
from engine.runner import unit, units
MODE = 'bits'
DIM = (2, 3, 4)
EPSI = F(D.fbits(0x3727c5ac))                 # 1e-5f
ONEM = F(D.fbits(0x3f7fffff))                 # largest float below one
def B(o): return P(tobool(o.ret))
def conj(l):
    r = P(D.TRUE)
    for p in l: r = r & p
    return r
def disj(l):
    r = P(D.FALSE)
    for p in l: r = r | p
    return r
def lt(a, b): return a < b
def near(a, b): return (a-b).abs() <= EPSI
def numeq(a, b): return a.eq(b) | (a.isnan() & b.isnan())
def unless_nan(c, ops, out, want, label):
    """where none of the operands is NaN, out is numerically want"""
    for i, (o, w) in enumerate(zip(out, want)):
        c.holds(disj([p.isnan() for p in ops[i]]) | numeq(o, w), '%s[%d]' % (label, i))
def ties(ns):
    """components mostly equal or nearly so, each sometimes different"""
    def g(rng):
        v = fval(rng); d = {}
        if v != v or abs(v) > 3e38: v = 1.0 if rng.random() < .8 else v
        for n in ns:
            r = rng.random()
            d[n] = float(np.float32(v)) if r < .7 else float(np.float32(v + rng.choice([9e-6, -9e-6, 2e-5, 1e-3, -1]))) if r < .9 else fval(rng)
        return d
    return g
def near_scalar(c, n):
    """vector and scalar drawn together so that ties are common in the sampled replay inputs"""
    ns = ['v[%d]' % i for i in range(n)] + ['s'] + ['w[%d]' % i for i in range(n)]
    c.samplers.append(ties(ns))
    return [F(D.var(x)) for x in ns[:n]], F(D.var('s')), [F(D.var(x)) for x in ns[n+1:]]

# ---------------------------------------------------------------- scalars
@unit()
def scalar_minmax(c):
    a, b = c.scalar('a'), c.scalar('b')
    unless_nan(c, [(a, b)], [c.call('glm_min', a, b).ret], [fmin(a, b)], 'min')
    unless_nan(c, [(a, b)], [c.call('glm_max', a, b).ret], [fmax(a, b)], 'max')
@unit()
def scalar_clamp(c):
    v, lo, hi = c.scalar('v'), c.scalar('lo'), c.scalar('hi')
    unless_nan(c, [(v,)], [c.call('glm_clamp_zo', v).ret], [where(v < 0, f(0), where(v > 1, f(1), v))], 'clamp_zo')
    c.assume(lo <= hi)
    unless_nan(c, [(v,)], [c.call('glm_clamp', v, lo, hi).ret], [where(v < lo, lo, where(v > hi, hi, v))], 'clamp')
def sgn(v): return where(v > 0, f(1), where(v < 0, f(-1), f(0)))
@unit()
def scalar_misc(c):
    a, b = c.scalar('a'), c.scalar('b')
    c.num(c.call('glm_signf', a).ret, sgn(a), 'signf')
    c.num(c.call('glm_step', a, b).ret, where(b < a, f(0), f(1)), 'step')
@unit()
def scalar_eq(c):
    v, s, w = near_scalar(c, 2)
    c.holds(B(c.call('glm_eq', v[0], s)).iff(near(v[0], s)), 'eq')

# ---------------------------------------------------------------- predicates
@units([('nan%d' % n, dict(n=n)) for n in DIM])
def predicates(c, n):
    v = c.vec('v', n)
    nan, inf = disj([e.isnan() for e in v]), disj([e.isinf() for e in v])
    c.holds(B(c.call('glm_vec%d_isnan' % n, v)).iff(nan), 'isnan')
    c.holds(B(c.call('glm_vec%d_isinf' % n, v)).iff(inf), 'isinf')
    c.holds(B(c.call('glm_vec%d_isvalid' % n, v)).iff(~nan & ~inf), 'isvalid')
@units([('eq%d' % n, dict(n=n)) for n in DIM])
def equal(c, n):
    v, s, w = near_scalar(c, n)
    c.holds(B(c.call('glm_vec%d_eq' % n, v, s)).iff(conj([e.eq(s) for e in v])), 'eq')
    c.holds(B(c.call('glm_vec%d_eq_eps' % n, v, s)).iff(conj([near(e, s) for e in v])), 'eq_eps')
    c.holds(B(c.call('glm_vec%d_eq_all' % n, v)).iff(conj([near(e, v[0]) for e in v])), 'eq_all')
    c.holds(B(c.call('glm_vec%d_eqv' % n, v, w)).iff(conj([a.eq(b) for a, b in zip(v, w)])), 'eqv')
    c.holds(B(c.call('glm_vec%d_eqv_eps' % n, v, w)).iff(conj([near(a, b) for a, b in zip(v, w)])), 'eqv_eps')

# ---------------------------------------------------------------- min / max / clamp
def fold(op, v):
    r = v[0]
    for e in v[1:]: r = op(r, e)
    return r
@units([('minmax%d' % n, dict(n=n)) for n in DIM])
def minmax(c, n):
    a, b = c.vec('a', n), c.vec('b', n)
    unless_nan(c, [a], [c.call('glm_vec%d_max' % n, a).ret], [fold(fmax, a)], 'max')
    unless_nan(c, [a], [c.call('glm_vec%d_min' % n, a).ret], [fold(fmin, a)], 'min')
    unless_nan(c, list(zip(a, b)), c.call('glm_vec%d_maxv' % n, a, b).dest, [fmax(p, q) for p, q in zip(a, b)], 'maxv')
    unless_nan(c, list(zip(a, b)), c.call('glm_vec%d_minv' % n, a, b).dest, [fmin(p, q) for p, q in zip(a, b)], 'minv')
@units([('minmaxacc%d' % n, dict(n=n)) for n in DIM])
def minmaxacc(c, n):
    a, b, d = c.vec('a', n), c.vec('b', n), c.vec('d', n); z = list(zip(a, b))
    hi, lo = [fmax(p, q) for p, q in z], [fmin(p, q) for p, q in z]
    unless_nan(c, z, c.call('glm_vec%d_maxadd' % n, a, b, d).dest, [p+q for p, q in zip(d, hi)], 'maxadd')
    unless_nan(c, z, c.call('glm_vec%d_minadd' % n, a, b, d).dest, [p+q for p, q in zip(d, lo)], 'minadd')
    unless_nan(c, z, c.call('glm_vec%d_maxsub' % n, a, b, d).dest, [p-q for p, q in zip(d, hi)], 'maxsub')
    unless_nan(c, z, c.call('glm_vec%d_minsub' % n, a, b, d).dest, [p-q for p, q in zip(d, lo)], 'minsub')
@units([('clamp%d' % n, dict(n=n)) for n in DIM])
def clamp(c, n):
    v, lo, hi = c.vec('v', n), c.scalar('lo'), c.scalar('hi'); c.assume(lo <= hi)
    unless_nan(c, [(e,) for e in v], c.call('glm_vec%d_clamp' % n, v, lo, hi).v, [where(e < lo, lo, where(e > hi, hi, e)) for e in v], 'clamp')

# ---------------------------------------------------------------- componentwise functions
@units([('unary%d' % n, dict(n=n)) for n in DIM])
def unary(c, n):
    v = c.vec('v', n)
    c.eq(c.call('glm_vec%d_abs' % n, v).dest, [e.abs() for e in v], 'abs')
    c.num(c.call('glm_vec%d_sign' % n, v).dest, [sgn(e) for e in v], 'sign')
    c.num(c.call('glm_vec%d_floor' % n, v).dest, [call1('floor', e) for e in v], 'floor')
    o = c.call('glm_vec%d_fract' % n, v).dest
    for i, e in enumerate(v):
        g = e-call1('floor', e)
        c.holds(e.isnan() | e.isinf() | o[i].eq(fmin(g, ONEM)), 'fract[%d]' % i)
        c.holds(e.isnan() | e.isinf() | ((o[i] >= 0) & (o[i] < 1)), 'fract in [0,1) [%d]' % i)
    c.eq(c.call('glm_vec%d_negate_to' % n, v).dest, [-e for e in v], 'negate_to')
    c.eq(c.call('glm_vec%d_negate' % n, v=v).v, [-e for e in v], 'negate')
@units([('sqrt%d' % n, dict(n=n)) for n in DIM])
def sqrt_(c, n):
    v = c.vec('v', n)
    c.num(c.call('glm_vec%d_sqrt' % n, v).dest, [call1('sqrt', e) for e in v], 'sqrt')
@units([('step%d' % n, dict(n=n)) for n in DIM])
def steps(c, n):
    e, x, s = c.vec('e', n), c.vec('x', n), c.scalar('s')
    st = lambda edge, y: where(y < edge, f(0), f(1))
    c.num(c.call('glm_vec%d_step' % n, e, x).dest, [st(p, q) for p, q in zip(e, x)], 'step')
    c.num(c.call('glm_vec%d_steps' % n, s, x).dest, [st(s, q) for q in x], 'steps')
    c.num(c.call('glm_vec%d_stepr' % n, e, s).dest, [st(p, s) for p in e], 'stepr')

# ---------------------------------------------------------------- copies (every bit pattern, NaN payloads included)
def raw(l): return [e.bits() for e in l]
def same(c, out, want, label):
    assert len(out) == len(want)
    c.eq(raw(out), raw(want), label)
COPY = [('vec%d_copy' % n, n) for n in DIM] + [('vec4_ucopy', 4), ('quat_copy', 4), ('vec2', 2)] + [('mat%s_copy' % m, k) for m, k in
        [('2', 4), ('3', 9), ('4', 16), ('2x3', 6), ('2x4', 8), ('3x2', 6), ('3x4', 12), ('4x2', 8), ('4x3', 12)]] + [('mat4_ucopy', 16)] + [('vec%d_make' % n, n) for n in DIM]
@units([(f_, dict(f_=f_, k=k)) for f_, k in COPY])
def copies(c, f_, k):
    v = c.vec('v', k); same(c, c.call('glm_'+f_, v).dest, v, 'copy')
@unit()
def narrowing(c):
    a, b, s = c.vec('a', 4), c.vec('b', 3), c.scalar('s')
    same(c, c.call('glm_vec3', a).dest, a[:3], 'vec3(vec4)'); same(c, c.call('glm_vec4', b, s).dest, b+[s], 'vec4(vec3, last)')
    same(c, c.call('glm_vec4_copy3', a).dest, a[:3], 'vec4_copy3')
@unit()
def fills(c):
    s = c.scalar('s')
    for n in DIM:
        v = c.vec('v%d' % n, n)
        same(c, c.call('glm_vec%d_fill' % n, v=v, val=s).v, [s]*n, 'fill%d' % n)
        same(c, c.call('glm_vec%d_zero' % n, v=v).v, [f(0)]*n, 'zero%d' % n)
        same(c, c.call('glm_vec%d_one' % n, v=v).v, [f(1)]*n, 'one%d' % n)
    same(c, c.call('glm_vec3_broadcast', s).d, [s]*3, 'broadcast3'); same(c, c.call('glm_vec4_broadcast', s).d, [s]*4, 'broadcast4')
@unit()
def swap(c):
    a, b = c.scalar('a'), c.scalar('b')
    o = c.call('glm_swapf', [a], [b]); same(c, o.a, [b], 'a'); same(c, o.b, [a], 'b')
@units([('swizzle%d' % n, dict(n=n)) for n in DIM])
def swizzle(c, n):
    """a few masks that between them move every source component to every place (all masks: C28)"""
    v = c.vec('v', n)
    for r in range(n):
        p = [(i*(1 if r % 2 == 0 else n-1) + r) % n for i in range(n)]
        m = sum(q << (2*i) for i, q in enumerate(p))
        same(c, c.call('glm_vec%d_swizzle' % n, v, m).dest, [v[q] for q in p], 'mask %d' % m)
