"""C29 gradient noise is classic periodic Perlin noise"""
import itertools
from engine.runner import unit, units
from engine.expr import *
from engine import dag as D, prove as V
CONFIGS_QUICK = ['scalar', 'sse2', 'neon', 'wasm']
CONFIGS = ['scalar', 'sse2', 'sse4', 'avx', 'fma', 'neon', 'neon32', 'wasm']
ASSUME = ['exact real arithmetic; constants are those of the published shader rounded to float', 'every coordinate is an integer (unbounded) plus a fraction in [0, 1-2^-24); the 2^-24 wide strip below each integer is where fract() saturates',
          'floor/remainder results are integer atoms reduced modulo their period']
def F(v): return X(D.fconst(v))
def floor(a): return fn('floor', a)
def fract(a): return a - floor(a)
def mod289(a): return a - floor(a/289)*289
def permute(a): return mod289((a*34+1)*a)
def step(e, v): return where(x(v) < x(e), 0, 1)
def mix(a, b, t): return x(a) + (x(b)-x(a))*t
def fade(t): return t*t*t*(t*(t*6-15)+10)
def grad(i, d):
    if d == 2:
        gx = fract(i/41)*2 - 1; gy = absx(gx) - Fraction(1, 2); return [gx - floor(gx + Fraction(1, 2)), gy]
    h = Fraction(1, 2); g0 = i/7
    if d == 3:
        gy = fract(floor(g0)/7) - h; gx = fract(g0); gz = x(h) - absx(gx) - absx(gy); s = step(gz, 0)
        return [gx - s*(step(0, gx)-h), gy - s*(step(0, gy)-h), gz]
    gy = floor(g0)/7; gz = floor(gy)/6
    gx, gy, gz = fract(g0)-h, fract(gy)-h, fract(gz)-h
    gw = x(Fraction(3, 4)) - absx(gx) - absx(gy) - absx(gz); s = step(gw, 0)
    return [gx - s*(step(0, gx)-h), gy - s*(step(0, gy)-h), gz, gw]
def noise(c, n, f):
    """n integer parts, f fractional parts"""
    d = len(n); P1 = [[mod289(k), mod289(k+1)] for k in n]; fd = [fade(t) for t in f]; c.hint(*fd); val = {}
    h = {(): x(0)}
    for k in range(d):
        h = {b + (z,): permute(h[b] + P1[k][z]) for b in h for z in (0, 1)}
    for b in itertools.product((0, 1), repeat=d):
        g = grad(h[b], d); c.hint(*g)
        nrm = F(1.79284291400159) - F(0.85373472095314)*dot(g, g); c.hint(nrm)
        val[b] = dot([e*nrm for e in g], [f[k] - b[k] for k in range(d)]); c.hint(val[b])
    for k in reversed(range(d)):
        val = {b: mix(val[b+(0,)], val[b+(1,)], fd[k]) for b in itertools.product((0, 1), repeat=k)}; c.hint(*val.values())
    return val[()]*(F(2.3) if d == 2 else F(2.2))
from fractions import Fraction
def order(d): return list(range(d))
@units([('reference vec%d' % d, dict(d=d)) for d in (2, 3, 4)])
def noise_is_reference(c, d):
    n, f = c.lattice('p', d); c.opaque()
    o = c.call('glm_perlin_vec%d' % d, [a+b for a, b in zip(n, f)])
    c.eq(o.ret, noise(c, n, f), 'noise')
@units([('lattice vec%d' % d, dict(d=d)) for d in (2, 3, 4)])
def noise_zero_on_lattice(c, d):
    n, f = c.lattice('p', d); c.opaque()
    noise(c, n, [x(0)]*d)
    o = c.call('glm_perlin_vec%d' % d, n)
    c.eq(o.ret, 0, 'zero at integer points')
@units([('period vec%d coordinate %d' % (d, k), dict(d=d, k=k)) for d in (2, 3, 4) for k in range(d)])
def noise_period(c, d, k):
    n, f = c.lattice('p', d); c.opaque()
    p = [a+b for a, b in zip(n, f)]; q = [e + 289 if j == k else e for j, e in enumerate(p)]
    noise(c, n, f)
    c.eq(c.call('glm_perlin_vec%d' % d, q).ret, c.call('glm_perlin_vec%d' % d, p).ret, 'period 289 in coordinate %d' % k)
