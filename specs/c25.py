"""C25 interpolation, stepping, easing, percentage"""
from fractions import Fraction
from engine.expr import *
from engine import dag as D
from engine.runner import unit, units
def clamp(v, lo, hi): return minx(maxx(v, lo), hi)
def zo(v): return clamp(v, ZERO, ONE)
def lerp(a, b, t): return a + t*(b-a)
def step(e, v): return where(v < e, ZERO, ONE)
def smooth(t): return t*t*(3-2*t)
def smoothstep(a, b, v): return smooth(zo((v-a)/(b-a)))
FC = lambda v: X(D.fconst(v))

LERPS = [('glm_' + n, k, cl, 'l') for n, k, cl in [('lerp', 1, False), ('lerpc', 1, True), ('vec2_lerp', 2, True), ('vec3_lerp', 3, False), ('vec3_lerpc', 3, True),
         ('vec4_lerp', 4, False), ('vec4_lerpc', 4, True), ('vec3_mix', 3, False), ('vec3_mixc', 3, True), ('vec4_mix', 4, False), ('vec4_mixc', 4, True)]] + \
        [('glm_' + n, k, cl, 's') for n, k, cl in [('smoothinterp', 1, False), ('smoothinterpc', 1, True), ('vec3_smoothinterp', 3, False), ('vec3_smoothinterpc', 3, True),
         ('vec4_smoothinterp', 4, False), ('vec4_smoothinterpc', 4, True)]]
@units([(fn[4:], dict(fn=fn, n=n, cl=cl, k=k)) for fn, n, cl, k in LERPS])
def interp(c, fn, n, cl, k):
    t = c.scalar('t'); u = zo(t) if cl else t
    if k == 's': u = smooth(u)
    if n == 1:
        a, b = c.scalar('from'), c.scalar('to'); c.eq(c.call(fn, a, b, t).ret, lerp(a, b, u), 'value')
    else:
        a, b = c.vec('from', n), c.vec('to', n); c.eq(c.call(fn, a, b, t).dest, [lerp(p, q, u) for p, q in zip(a, b)], 'value')

@unit()
def scalars(c):
    e, v, a, b, t = c.scalar('edge'), c.scalar('x'), c.scalar('from'), c.scalar('to'), c.scalar('t')
    c.eq(c.call('glm_step', e, v).ret, step(e, v), 'step')
    c.eq(c.call('glm_smooth', t).ret, smooth(t), 'smooth')
    c.eq(c.call('glm_clamp_zo', t).ret, zo(t), 'clamp_zo')
    p = where((b-a).eq(0), ONE, (v-a)/(b-a))
    c.eq(c.call('glm_percent', a, b, v).ret, p, 'percent'); c.eq(c.call('glm_percentc', a, b, v).ret, where((b-a).eq(0), ONE, zo((v-a)/(b-a))), 'percentc')
@unit()
def clamp_(c):
    v, lo, hi = c.scalar('val'), c.scalar('minVal'), c.scalar('maxVal'); c.assume(lo <= hi)
    c.eq(c.call('glm_clamp', v, lo, hi).ret, where(v < lo, lo, where(v > hi, hi, v)), 'clamp')
@unit()
def smoothstep_(c):
    a, b, v = c.scalar('edge0'), c.scalar('edge1'), c.scalar('x'); c.assume(a.ne(b))
    r = c.call('glm_smoothstep', a, b, v).ret
    c.eq(r, smoothstep(a, b, v), 'value'); c.holds((a < b).implies((v <= a).implies(r.eq(0)) & (v >= b).implies(r.eq(1))), 'saturates at the edges')
@units([('vec%d_steps' % n, dict(n=n)) for n in (2, 3, 4)])
def vsteps(c, n):
    e, v, E, V = c.vec('edge', n), c.vec('x', n), c.scalar('E'), c.scalar('V'); p = 'glm_vec%d_' % n
    c.eq(c.call(p + 'step', e, v).dest, [step(a, b) for a, b in zip(e, v)], 'step')
    c.eq(c.call(p + 'steps', E, v).dest, [step(E, b) for b in v], 'steps')
    c.eq(c.call(p + 'stepr', e, V).dest, [step(a, V) for a in e], 'stepr')
@units([('vec%d_smoothstep' % n, dict(n=n)) for n in (3, 4)])
def vsmooth(c, n):
    a, b, v, A, Bb = c.vec('edge0', n), c.vec('edge1', n), c.vec('x', n), c.scalar('A'), c.scalar('B'); p = 'glm_vec%d_' % n
    for q, r in zip(a, b): c.assume(q.ne(r))
    c.assume(A.ne(Bb))
    c.eq(c.call(p + 'smoothstep', a, b, v).dest, [smoothstep(*q) for q in zip(a, b, v)], 'smoothstep')
    c.eq(c.call(p + 'smoothstep_uni', A, Bb, v).dest, [smoothstep(A, Bb, q) for q in v], 'smoothstep_uni')

# ---------------------------------------------------------------- easing: the standard curves
H = ONE/2
def io(f): return lambda t: where(t < H, f(2*t)/2, 1 - f(2-2*t)/2)      # standard in-out from an "in" curve
def outof(f): return lambda t: 1 - f(1-t)
def pw(k): return lambda t: t**k
def two(e): return powx(x(2), e)
o_, s_ = FC(1.70158), FC(1.70158)*FC(1.525)
back = lambda o: (lambda t: t*t*((o+1)*t - o))
def bounce_out(t):
    tt = t*t; F = lambda a, b: X(rc(Fraction(a, b)))
    return where(t < F(4, 11), F(121, 16)*tt, where(t < F(8, 11), F(363, 40)*tt - F(99, 10)*t + F(17, 5),
           where(t < F(9, 10), F(4356, 361)*tt - F(35442, 1805)*t + F(16061, 1805), F(54, 5)*tt - F(513, 25)*t + F(268, 25))))
circ = lambda t: 1 - sqrt(1-t*t)
sine_in = lambda t: 1 - cos(t*PI/2)
CURVES = {'linear': lambda t: t, 'sine_in': sine_in, 'sine_out': lambda t: sin(t*PI/2), 'sine_inout': lambda t: (1-cos(t*PI))/2,
  'back_in': back(o_), 'back_out': outof(back(o_)), 'back_inout': io(back(s_)),
  'circ_in': circ, 'circ_out': outof(circ), 'circ_inout': io(circ),
  'exp_in': lambda t: where(t.eq(0), ZERO, two(10*(t-1))), 'exp_out': lambda t: where(t.eq(1), ONE, 1-two(-10*t)),
  'exp_inout': lambda t: where(t.eq(0), ZERO, where(t.eq(1), ONE, where(t < H, two(20*t-10)/2, 1 - two(10-20*t)/2))),
  'elast_in': lambda t: sin(13*PI/2*t)*two(10*(t-1)), 'elast_out': lambda t: sin(-13*PI/2*(t+1))*two(-10*t) + 1,
  'elast_inout': lambda t: where(t < H, sin(13*PI*t)*two(10*(2*t-1))/2, (sin(-13*PI*t)*two(-10*(2*t-1))+2)/2)}
for k, nm in ((2, 'quad'), (3, 'cubic'), (4, 'quart'), (5, 'quint')):
    CURVES[nm + '_in'] = pw(k); CURVES[nm + '_out'] = outof(pw(k)); CURVES[nm + '_inout'] = io(pw(k))
@units([('ease_' + k, dict(k=k)) for k in CURVES])
def ease(c, k):
    t = c.scalar('t')
    c.assume(t >= 0); c.assume(t <= 1)
    c.eq(c.call('glm_ease_' + k, t).ret, CURVES[k](t), 'standard curve')
    c.eq(c.call('glm_ease_' + k, ZERO).ret, ZERO, '0 at 0'); c.eq(c.call('glm_ease_' + k, ONE).ret, ONE, '1 at 1')
TOL = X(rc(Fraction(1, 20000)))
@units([('ease_bounce_' + k, dict(k=k, f=f)) for k, f in (('out', bounce_out), ('in', lambda t: 1-bounce_out(1-t)),
        ('inout', lambda t: where(t < H, (1-bounce_out(1-2*t))/2, bounce_out(2*t-1)/2+H)))])
def bounce(c, k, f):
    # coefficients are quotients rounded to float: agreement within 5e-5.
    t = c.scalar('t', genzo); c.assume(t >= 0); c.assume(t <= 1)
    r = c.call('glm_ease_bounce_' + k, t).ret - f(t)
    c.holds((r <= TOL) & (r >= -TOL), 'standard curve')
    for z, w in ((ZERO, ZERO), (ONE, ONE)):
        r = c.call('glm_ease_bounce_' + k, z).ret - w
        c.holds((r <= TOL) & (r >= -TOL), 'end point')
@units([('continuous_' + k, dict(k=k, at=at)) for k, at in [('quad_inout', [H]), ('cubic_inout', [H]), ('quart_inout', [H]), ('quint_inout', [H]), ('back_inout', [H]), ('circ_inout', [H]), ('exp_inout', [H]),
        ('elast_inout', [H]), ('bounce_out', [x(Fraction(4, 11)), x(Fraction(8, 11)), x(Fraction(9, 10))]), ('bounce_inout', [H])]])
def continuous(c, k, at):
    # Lipschitz-style continuity at the joints: left of the joint and right of it stay within 100*distance + 1e-4
    for i, p in enumerate(at):
        if k in ('exp_inout', 'elast_inout'):
            c.eq(c.call('glm_ease_' + k, p).ret, CURVES[k](p), 'value at the joint'); continue
        d = c.scalar('d%d' % i, gensmall); c.assume(d > 0); c.assume(d <= X(rc(Fraction(1, 1000))))
        q = c.call('glm_ease_' + k, p).ret
        if k == 'circ_inout':
            r = c.call('glm_ease_' + k, p-d).ret; c.holds((q-r <= 2*sqrt(d)) & (q-r >= 0), 'left limit'); continue
        for sg, w in ((-1, 'left limit'), (1, 'right limit')):
            r = c.call('glm_ease_' + k, p+sg*d).ret - q; b = 100*d + X(rc(Fraction(1, 10000)))
            c.holds((r <= b) & (r >= -b), w)
def genzo(ns): return lambda rng: {n: Fraction(rng.randint(0, 256), 256) for n in ns}
def gensmall(ns): return lambda rng: {n: Fraction(rng.randint(1, 64), 65536) for n in ns}
