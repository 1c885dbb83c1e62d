"""C27 vector geometry"""
from engine.expr import *
from fractions import Fraction
from engine import dag as D
from engine.prove import genunit, genpos
from engine.runner import unit, units
EPS = X(rc(1))/X(rc(2**23))
DIM = [('vec%d' % n, dict(n=n)) for n in (2, 3, 4)]
def per(tag, dims=(2, 3, 4)): return units([('%s%d' % (tag, n), dict(n=n)) for n in dims])

@per('dot')
def dot_(c, n):
    a, b = c.vec('a', n), c.vec('b', n)
    c.eq(c.call('glm_vec%d_dot' % n, a, b).ret, dot(a, b), 'dot')
    c.eq(c.call('glm_vec%d_norm2' % n, a).ret, norm2(a), 'norm2')
    c.eq(c.call('glm_vec%d_norm' % n, a).ret, norm(a), 'norm')
@unit()
def dot_alias(c):
    a, b = c.vec('a', 3), c.vec('b', 3)
    c.eq(c.call('glm_dot', a, b).ret, dot(a, b), 'glm_dot')
    c.eq(c.call('glm_cross', a, b).d, cross(a, b), 'glm_cross')
@per('distance')
def distance(c, n):
    a, b = c.vec('a', n), c.vec('b', n)
    c.eq(c.call('glm_vec%d_distance2' % n, a, b).ret, norm2(vsub(a, b)), 'distance2')
    c.eq(c.call('glm_vec%d_distance' % n, a, b).ret, norm(vsub(a, b)), 'distance')
@per('norms', (3, 4))
def norms(c, n):
    c.linear()
    v = c.vec('v', n)
    s = ZERO; m = ZERO
    for e in v: s = s + absx(e); m = maxx(m, absx(e))
    c.eq(c.call('glm_vec%d_norm_one' % n, v).ret, s, 'sum of magnitudes')
    c.eq(c.call('glm_vec%d_norm_inf' % n, v).ret, m, 'largest magnitude')
@per('hadd', (3, 4))
def hadd(c, n):
    v = c.vec('v', n); c.eq(c.call('glm_vec%d_hadd' % n, v).ret, sum_(v), 'sum of components')

@unit()
def cross3(c):
    a, b = c.vec('a', 3), c.vec('b', 3)
    o = c.call('glm_vec3_cross', a, b).dest
    c.eq(o, cross(a, b), 'right-handed cross product')
    c.eq(dot(o, a), ZERO, 'orthogonal to a'); c.eq(dot(o, b), ZERO, 'orthogonal to b')
    c.eq(norm2(o), norm2(a)*norm2(b)-dot(a, b)*dot(a, b), '|a x b|^2 = |a|^2|b|^2 - (a.b)^2')
@unit()
def cross2(c):
    a, b = c.vec('a', 2), c.vec('b', 2)
    c.eq(c.call('glm_vec2_cross', a, b).ret, a[0]*b[1]-a[1]*b[0], 'z of the cross product')
@unit()
def crossn(c):
    a, b = c.vec('a', 3), c.vec('b', 3); e = cross(a, b); n = norm(e)
    c.assume(n >= EPS)
    c.eq(c.call('glm_vec3_crossn', a, b).dest, [k/n for k in e], 'unit cross product')

NORMALIZE = [('glm_vec2_normalize', 2, 'v'), ('glm_vec2_normalize_to', 2, 'dest'), ('glm_vec3_normalize', 3, 'v'), ('glm_vec3_normalize_to', 3, 'dest'),
             ('glm_vec4_normalize', 4, 'v'), ('glm_vec4_normalize_to', 4, 'dest'), ('glm_normalize', 3, 'v'), ('glm_normalize_to', 3, 'dest')]
@units([(f, dict(f=f, n=n, o=o)) for f, n, o in NORMALIZE])
def normalize(c, f, n, o):
    v = c.vec('v', n, gentiny); k = norm(v)
    r = getattr(c.call(f, v), o)
    c.eq(r, [where(k < EPS, ZERO, e/k) for e in v], 'v/|v|, zero for a zero-length vector')
def gentiny(ns):
    def g(rng):
        s = rng.choice([1, 1, 1, Fraction(1, 10**5), Fraction(1, 10**9), 0])
        return {n: Fraction(rng.randint(-9, 9), rng.choice([1, 2, 4]))*s for n in ns}
    return g
@per('normalize_unit')
def normalize_unit(c, n):
    v = c.vec('v', n); c.assume(norm(v) >= EPS)
    c.eq(norm2(c.call('glm_vec%d_normalize_to' % n, v).dest), ONE, 'unit length')
@per('scale_as')
def scale_as(c, n):
    v = c.vec('v', n, gentiny); s = c.scalar('s'); k = norm(v)
    c.eq(c.call('glm_vec%d_scale_as' % n, v, s).dest, [where(k < EPS, ZERO, e*s/k) for e in v], 'same direction, length s')
@per('center', (2, 3))
def center(c, n):
    a, b = c.vec('a', n), c.vec('b', n)
    c.eq(c.call('glm_vec%d_center' % n, a, b).dest, [(p+q)/2 for p, q in zip(a, b)], 'midpoint')

@unit()
def rotate2(c):
    v = c.vec('v', 2); a = c.angle('a')
    o = c.call('glm_vec2_rotate', v, a).dest
    c.eq(o, [cos(a)*v[0]-sin(a)*v[1], sin(a)*v[0]+cos(a)*v[1]], 'counter-clockwise rotation')
    c.eq(norm2(o), norm2(v), 'length kept')
@unit()
def rotate3(c):
    v, w = c.vec('v', 3), c.vec('axis', 3); a = c.angle('a'); n = norm(w)
    c.assume(n >= EPS); k = [e/n for e in w]
    o = c.call('glm_vec3_rotate', v=v, angle=a, axis=w).v
    c.eq(o, [v[i]*cos(a)+cross(k, v)[i]*sin(a)+k[i]*dot(k, v)*(1-cos(a)) for i in range(3)], 'rodrigues rotation about the normalised axis')
@unit()
def rotate3_length(c):
    v, k = c.vec('v', 3), c.unit_vec('axis', 3); a = c.angle('a')
    o = c.call('glm_vec3_rotate', v=v, angle=a, axis=k).v
    c.eq(norm2(o), norm2(v), 'length kept'); c.eq(dot(o, k), dot(v, k), 'component along the axis kept')
@unit()
def rotate_m3(c):
    v = c.vec('v', 3); m = c.mat('m', 3); k = cols(m, 3)
    for e in k: c.assume(norm(e) >= EPS)
    c.eq(c.call('glm_vec3_rotate_m3', m=m, v=v).dest, [sum_([k[j][i]/norm(k[j])*v[j] for j in range(3)]) for i in range(3)], 'rotation by the normalised columns')
@unit()
def rotate_m4(c):
    v = c.vec('v', 3); m = c.mat('m', 4)
    for i in (3, 7, 11): c.assume(m[i].eq(0)); c.samplers.append(lambda rng, i=i: {'m[%d]' % i: Fraction(0)})
    k = [e[:3] for e in cols(m, 4)[:3]]
    for e in k: c.assume(norm(e) >= EPS)
    c.eq(c.call('glm_vec3_rotate_m4', m=m, v=v).dest, [sum_([k[j][i]/norm(k[j])*v[j] for j in range(3)]) for i in range(3)], 'rotation by the normalised columns, no translation')
@unit()
def angle3(c):
    a, b = c.vec('a', 3), c.vec('b', 3); c.assume(norm2(a) > 0); c.assume(norm2(b) > 0)
    d = dot(a, b)/(norm(a)*norm(b))
    c.assume(d <= 1); c.assume(d >= -1)     # Cauchy-Schwarz
    c.eq(c.call('glm_vec3_angle', a, b).ret, acos(d), 'angle')
@unit()
def angle3_parallel(c):
    a = c.vec('a', 3); c.assume(norm2(a) > 0); k = c.pos('k')
    c.eq(cos(c.call('glm_vec3_angle', a, [k*e for e in a]).ret), ONE, 'parallel'); c.eq(cos(c.call('glm_vec3_angle', a, [-k*e for e in a]).ret), -ONE, 'opposite')
@unit()
def proj(c):
    a, b = c.vec('a', 3), c.vec('b', 3); c.assume(norm2(b) > 0)
    o = c.call('glm_vec3_proj', a, b).dest
    c.eq(o, [dot(a, b)/norm2(b)*e for e in b], 'projection onto b')
    c.eq(dot(vsub(a, o), b), ZERO, 'the remainder is orthogonal to b')
@unit()
def ortho(c):
    v = c.vec('v', 3)
    o = c.call('glm_vec3_ortho', v).dest
    c.eq(dot(o, v), ZERO, 'orthogonal')
@unit()
def ortho_nonzero(c):
    v = c.vec('v', 3); c.assume(norm2(v) > 0)
    o = c.call('glm_vec3_ortho', v).dest
    c.holds(norm2(o) > 0, 'not zero for a non-zero vector')

def refl(v, n): return [p-2*dot(v, n)*q for p, q in zip(v, n)]
@per('reflect')
def reflect(c, n):
    v, m = c.vec('v', n), c.vec('n', n)
    e = refl(v, m)
    if n == 4: e[3] = v[3]       # documented: keeps w
    c.eq(c.call('glm_vec%d_reflect' % n, v, m).dest, e, 'v - 2 (n.v) n')
@per('reflect_unit', (2, 3))
def reflect_unit(c, n):
    v, m = c.vec('v', n), c.unit_vec('n', n)
    o = c.call('glm_vec%d_reflect' % n, v, m).dest
    c.eq(norm2(o), norm2(v), 'length kept'); c.eq(dot(o, m), -dot(v, m), 'normal component reversed')
@per('refract')
def refract(c, n):
    v, m = c.vec('v', n), c.vec('n', n); eta = c.scalar('eta')
    ni = dot(m, v); k = 1-eta*eta*(1-ni*ni)
    o = c.call('glm_vec%d_refract' % n, v, m, eta)
    c.holds(P(tobool(o.ret)).iff(k >= 0), 'false exactly on total internal reflection')
    f = sqrt(maxx(k, ZERO))
    e = [where(k >= 0, eta*p-(eta*ni+f)*q, ZERO) for p, q in zip(v, m)]
    c.eq(o.dest, e, "Snell's law, zero on total internal reflection")
@per('refract_unit', (2, 3))
def refract_unit(c, n):
    v, m = c.unit_vec('v', n), c.unit_vec('n', n); eta = c.scalar('eta', genpos)
    k = 1-eta*eta*(1-dot(m, v)*dot(m, v)); c.assume(k >= 0)
    o = c.call('glm_vec%d_refract' % n, v, m, eta).dest
    c.eq(norm2(o), ONE, 'unit length')
    # tangential component scales by eta
    c.eq(vsub(o, vscale(m, dot(o, m))), vscale(vsub(v, vscale(m, dot(v, m))), eta), 'tangential part scaled by eta')
@unit()
def faceforward(c):
    n, v, r = c.vec('n', 3), c.vec('v', 3), c.vec('nref', 3)
    c.eq(c.call('glm_vec3_faceforward', n, v, r).dest, [where(dot(v, r) < 0, e, -e) for e in n], 'faceforward')

@unit()
def complex_(c):
    a, b = c.vec('a', 2), c.vec('b', 2)
    c.eq(c.call('glm_vec2_complex_mul', a, b).dest, [a[0]*b[0]-a[1]*b[1], a[0]*b[1]+a[1]*b[0]], 'product')
    c.eq(c.call('glm_vec2_complex_conjugate', a).dest, [a[0], -a[1]], 'conjugate')
@unit()
def complex_div(c):
    a, b = c.vec('a', 2), c.vec('b', 2); k = norm2(b); c.assume(k > 0)
    c.eq(c.call('glm_vec2_complex_div', a, b).dest, [(a[0]*b[0]+a[1]*b[1])/k, (a[1]*b[0]-a[0]*b[1])/k], 'quotient')
@unit()
def luminance(c):
    v = c.vec('v', 3)
    c.eq(c.call('glm_luminance', v).ret, sum_([X(D.fconst(k))*e for k, e in zip((0.212671, 0.715160, 0.072169), v)]), 'luminance')
@unit()
def plane(c):
    p = c.vec('plane', 4); k = norm(p[:3])
    c.eq(c.call('glm_plane_normalize', plane=p).plane, [where(k < EPS, ZERO, e/k) for e in p], 'unit normal, same plane')
@unit()
def degrees(c):
    a = c.scalar('a')
    c.eq(c.call('glm_rad', a).ret, a*PI/180, 'degrees to radians'); c.eq(c.call('glm_deg', a).ret, a*180/PI, 'radians to degrees')
    c.eq(c.call('glm_make_rad', [a]).deg, [a*PI/180], 'make_rad'); c.eq(c.call('glm_make_deg', [a]).rad, [a*180/PI], 'make_deg')
    c.eq(c.call('glm_pow2', a).ret, a*a, 'square')

# guards against rounding: whatever the rounded intermediate values are, no acos/sqrt argument leaves its domain
def genpar(names, n):
    """nearly parallel or opposite vectors with coordinates that do not round well"""
    def s(rng):
        v = [Fraction(rng.randint(1, 10**6), rng.randint(1, 10**6)) for _ in range(n)]; k = Fraction(rng.choice([-1, 1])*rng.randint(1, 999), rng.randint(1, 999))
        if rng.random() < .3: v[rng.randrange(n)] = Fraction(0)
        return {**{'%s[%d]' % (names[0], i): v[i] for i in range(n)}, **{'%s[%d]' % (names[1], i): k*v[i] for i in range(n)}}
    return s
@unit()
def angle3_domain(c):
    a, b = c.vec('a', 3), c.vec('b', 3); c.samplers.append(genpar(('a', 'b'), 3))
    c.domain(c.call('glm_vec3_angle', a, b).ret, 'angle is a number')
