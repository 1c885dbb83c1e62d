"""C26 cubic curves"""
from fractions import Fraction
from engine.expr import *
from engine.prove import genrange
from engine.runner import unit, units
BEZ = [[-1, 3, -3, 1], [3, -6, 3, 0], [-3, 3, 0, 0], [1, 0, 0, 0]]
HER = [[2, -3, 0, 1], [-2, 3, 0, 0], [1, -2, 1, 0], [1, -1, 0, 0]]
def bern(s, p): u = 1-s; return u*u*u*p[0] + 3*u*u*s*p[1] + 3*u*s*s*p[2] + s*s*s*p[3]
def herm(s, p0, t0, t1, p1):
    s2, s3 = s*s, s*s*s
    return (2*s3-3*s2+1)*p0 + (s3-2*s2+s)*t0 + (s3-s2)*t1 + (3*s2-2*s3)*p1
@unit()
def bezier(c):
    s = c.scalar('s'); p = [c.scalar(n) for n in ('p0', 'c0', 'c1', 'p1')]
    c.eq(c.call('glm_bezier', s, *p).ret, bern(s, p), 'Bernstein')
    c.eq(c.call('glm_bezier', ZERO, *p).ret, p[0], 'start'); c.eq(c.call('glm_bezier', ONE, *p).ret, p[3], 'end')
@unit()
def hermite(c):
    s = c.scalar('s'); p = [c.scalar(n) for n in ('p0', 't0', 't1', 'p1')]
    c.eq(c.call('glm_hermite', s, *p).ret, herm(s, *p), 'Hermite')
    c.eq(c.call('glm_hermite', ZERO, *p).ret, p[0], 'start'); c.eq(c.call('glm_hermite', ONE, *p).ret, p[3], 'end')
@unit()
def hermite_bezier(c):
    # a Hermite segment is the Bezier segment with control points p0 + t0/3, p1 - t1/3
    s = c.scalar('s'); p0, t0, t1, p1 = [c.scalar(n) for n in ('p0', 't0', 't1', 'p1')]
    c.eq(c.call('glm_hermite', s, p0, t0, t1, p1).ret, c.call('glm_bezier', s, p0, p0+t0/3, p1-t1/3, p1).ret, 'Hermite = Bezier')
@unit()
def cubic(c):
    s = c.scalar('s'); c.eq(c.call('glm_vec4_cubic', s).dest, [s*s*s, s*s, s, ONE], '(t^3,t^2,t,1)')
@unit()
def smc(c):
    s, m, v = c.scalar('s'), c.mat('m', 4), c.vec('c', 4); M = cols(m, 4); S = [s*s*s, s*s, s, ONE]
    c.eq(c.call('glm_smc', s, m, v).ret, dot([dot(S, k) for k in M], v), 'S*M*C')
@unit()
def bases(c):
    # the basis matrices of the header, through the real initialisers
    s, p = c.scalar('s'), c.vec('p', 4)
    b, h = [c.call('glm_x_%s_mat' % n).dest for n in ('bezier', 'hermite')]
    c.eq(b, flat(BEZ), 'Bezier basis'); c.eq(h, flat(HER), 'Hermite basis')
    c.eq(c.call('glm_smc', s, b, p).ret, c.call('glm_bezier', s, *p).ret, 'smc(Bezier) = bezier')
    c.eq(c.call('glm_smc', s, h, [p[0], p[3], p[1], p[2]]).ret, c.call('glm_hermite', s, *p).ret, 'smc(Hermite) = hermite')

@units([('decasteljau_%d' % k, dict(k=k)) for k in (1, 2, 3, 4)])
def decasteljau(c, k):
    # bounded: runs that end within k subdivisions (all dyadic paths)
    w = c.scalar('prm'); p = [c.scalar(n) for n in ('p0', 'c0', 'c1', 'p1')]
    c.assume(p[0] <= w); c.assume(w <= p[3])
    o = c.call('glm_decasteljau', w, *p, loop_bound=k+1); e = X(rc(Fraction(2, 10**9)))
    r = bern(o.ret, p) - w
    c.holds(o.pc.implies((1000*r <= 1000*e) & (1000*r >= -1000*e)), 'curve value at the returned parameter')
    c.holds(o.pc.implies((o.ret >= 0) & (o.ret <= 1)), 'parameter in [0,1]')

@units([('decasteljau_line_%d_%d' % (j, m), dict(j=j, m=m)) for j, m in ((0, 0), (8, 85), (12, 2730), (16, 0), (20, 2**20-1), (24, 5592405))])
def decasteljau_line(c, j, m):
    # deeper: control points 0, 1, 2, 3 (the curve is 3t), every target whose parameter lies in [m, m+1]/2^j, j+5 subdivisions
    c.linear(True)
    w = c.scalar('prm', genrange(Fraction(3*m, 2**j), Fraction(3*m+3, 2**j))); p = [X(rc(i)) for i in range(4)]
    c.assume(w >= X(rc(Fraction(3*m, 2**j)))); c.assume(w <= X(rc(Fraction(3*m+3, 2**j))))
    o = c.call('glm_decasteljau', w, *p, loop_bound=j+6); e = X(rc(Fraction(2, 10**9)))
    c.holds(o.pc.implies((3*o.ret-w <= e) & (3*o.ret-w >= -e)), 'curve value at the returned parameter')
