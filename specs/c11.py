"""C11 quaternion interpolation"""
from engine.expr import *
from engine.prove import genrange
from engine.runner import unit, units
from specs.c09 import ham

def pair(c, name='a'):
    """every pair of unit quaternions: b = a*r with r the unit quaternion inv(a)*b, so that dot(a,b) = real part of r"""
    a = c.unit_vec('a', 4); r = c.unit_vec('r', 4)
    return a, ham(a, r[1:] + [r[0]]), r[0]

def lerp(a, b, t): return [p + t*(q-p) for p, q in zip(a, b)]
def clamp01(t): return where(t < 0, ZERO, where(t > 1, ONE, t))

@unit()
def quat_lerp(c):
    a, b, t = c.vec('a', 4), c.vec('b', 4), c.scalar('t')
    c.eq(c.call('glm_quat_lerp', a, b, t).dest, lerp(a, b, t), 'lerp')
    c.eq(c.call('glm_quat_lerp', a, b, ZERO).dest, a, 'lerp t=0')
    c.eq(c.call('glm_quat_lerp', a, b, ONE).dest, b, 'lerp t=1')
@unit()
def quat_lerpc(c):
    a, b, t = c.vec('a', 4), c.vec('b', 4), c.scalar('t')
    c.eq(c.call('glm_quat_lerpc', a, b, t).dest, lerp(a, b, clamp01(t)), 'lerpc')

@units([('quat_nlerp_same', dict(neg=0)), ('quat_nlerp_opp', dict(neg=1))])
def nlerp(c, neg):
    a, b, d = pair(c); t = c.scalar('t')
    c.assume(d < 0 if neg else d >= 0)
    sb = [-e for e in b] if neg else b
    l = lerp(a, sb, t); n = norm(l)
    o = c.call('glm_quat_nlerp', a, b, t).dest
    c.eq(o, [e/n for e in l], 'normalised lerp along the short arc')
    c.eq(norm2(o), ONE, 'unit')
    o0 = c.call('glm_quat_nlerp', a, b, ZERO).dest; o1 = c.call('glm_quat_nlerp', a, b, ONE).dest
    c.eq(o0, a, 't=0'); c.eq(o1, sb, 't=1')

TH = X(rc(1))/X(rc(1000))
# slerp:  d<0 -> negate from;   longest: d>=0 -> negate from
@units([('quat_slerp_pos', dict(fn='glm_quat_slerp', cs='pos', neg=0)), ('quat_slerp_neg', dict(fn='glm_quat_slerp', cs='neg', neg=1)),
        ('quat_slerp_longest_pos', dict(fn='glm_quat_slerp_longest', cs='pos', neg=1)), ('quat_slerp_longest_neg', dict(fn='glm_quat_slerp_longest', cs='neg', neg=0))])
def slerp(c, fn, cs, neg):
    a, b, d = pair(c); t = c.scalar('t', genrange(-1, 2))
    c.assume(d >= 0 if cs == 'pos' else d < 0)
    c.assume(1 - d*d > 0); c.assume(sqrt(1-d*d) >= TH)
    A = [-e for e in a] if neg else a; cd = -d if neg else d
    th = acos(cd); s = sqrt(1-d*d)
    o = c.call(fn, a, b, t).dest
    c.eq(o, [(sin((1-t)*th)*p + sin(t*th)*q)/s for p, q in zip(A, b)], 'slerp formula')
    c.eq(c.call(fn, a, b, ZERO).dest, A, 't=0'); c.eq(c.call(fn, a, b, ONE).dest, b, 't=1')
    c.eq(norm2(o), ONE, 'unit')
    h = c.call(fn, a, b, ONE/2).dest
    c.eq(dot(h, A), dot(h, b), 'halfway')

@units([('quat_slerp_near', dict(neg=0)), ('quat_slerp_near_opp', dict(neg=1))])
def near(c, neg):
    # almost the same rotation: linear interpolation along the short arc
    a, b, d = pair(c); t = c.scalar('t', genrange(0, 1))
    c.assume(d < 0 if neg else d >= 0); c.assume(1 - d*d > 0); c.assume(sqrt(1-d*d) < TH)
    A = [-e for e in a] if neg else a
    c.eq(c.call('glm_quat_slerp', a, b, t).dest, lerp(A, b, t), 'near: short arc')
@unit()
def near_longest(c):
    # the direction of the long arc is numerically undefined here: only the endpoints are promised
    a, b, d = pair(c)
    c.assume(1 - d*d > 0); c.assume(sqrt(1-d*d) < TH)
    c.eq(c.call('glm_quat_slerp_longest', a, b, ZERO).dest, a, 't=0'); c.eq(c.call('glm_quat_slerp_longest', a, b, ONE).dest, b, 't=1')

@units([('%s_%s' % (f, n), dict(f=f, neg=k)) for f in ('quat_slerp', 'quat_slerp_longest') for n, k in (('equal', 0), ('antipodal', 1))])
def ends(c, f, neg):
    a, t = c.unit_vec('a', 4), c.scalar('t', genrange(0, 1))
    b = [-e for e in a] if neg else a
    c.eq(c.call('glm_' + f, a, b, t).dest, a, 'same rotation at both ends')

# guards against rounding: whatever the rounded dot product is, neither acos nor sqrt gets an argument outside its domain
def gensame(rng):
    v = [rng.uniform(-1, 1) for _ in range(4)]; n = sum(e*e for e in v)**.5 or 1; v = [Fraction(e/n) for e in v]; k = rng.choice([1, -1])
    return {**{'a[%d]' % i: v[i] for i in range(4)}, **{'b[%d]' % i: k*v[i] for i in range(4)}}
@units([('quat_slerp_domain', dict(fn='glm_quat_slerp')), ('quat_slerp_longest_domain', dict(fn='glm_quat_slerp_longest'))])
def slerp_domain(c, fn):
    a, b, t = c.vec('a', 4), c.vec('b', 4), c.scalar('t', genrange(0, 1)); c.samplers.append(gensame)
    c.domain(c.call(fn, a, b, t).dest, 'result is a number')
