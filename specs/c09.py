"""C09 quaternion algebra (x,y,z,w with w real)"""
from engine.expr import *
from engine.prove import genunit, genpos
from engine.runner import unit, units

def ham(p, q):
    a, b, c_, d = p[3], p[0], p[1], p[2]; e, f, g, h = q[3], q[0], q[1], q[2]
    return [a*f+b*e+c_*h-d*g, a*g-b*h+c_*e+d*f, a*h+b*g-c_*f+d*e, a*e-b*f-c_*g-d*h]
def conj(q): return [-q[0], -q[1], -q[2], q[3]]

@unit()
def mul(c):
    p, q = c.vec('p', 4), c.vec('q', 4)
    o = c.call('glm_quat_mul', p, q)
    c.eq(o.dest, ham(p, q), 'hamilton product')
    c.eq(norm2(o.dest), norm2(p)*norm2(q), '|pq|=|p||q|')

@unit()
def conjugate(c):
    q = c.vec('q', 4)
    c.eq(c.call('glm_quat_conjugate', q).dest, conj(q), 'conjugate')

@unit()
def inv(c):
    q = c.vec('q', 4); c.assume(norm2(q) > 0)
    o = c.call('glm_quat_inv', q)
    c.eq(o.dest, [e/norm2(q) for e in conj(q)], 'inv')
    c.eq(ham(q, o.dest), [ZERO, ZERO, ZERO, ONE], 'q*inv(q)')
    c.eq(ham(o.dest, q), [ZERO, ZERO, ZERO, ONE], 'inv(q)*q')
    m = c.call('glm_quat_mul', q, o.dest)
    c.eq(m.dest, [ZERO, ZERO, ZERO, ONE], 'glm_quat_mul(q,inv(q))')

@unit()
def norm_dot(c):
    p, q = c.vec('p', 4), c.vec('q', 4)
    c.eq(c.call('glm_quat_norm', q).ret, norm(q), 'norm')
    c.eq(c.call('glm_quat_dot', p, q).ret, dot(p, q), 'dot')

@unit()
def normalize(c):
    q = c.vec('q', 4); n = norm(q); z = norm2(q).eq(0)
    e = [where(z, i, v/n) for v, i in zip(q, (0, 0, 0, 1))]
    c.eq(c.call('glm_quat_normalize_to', q).dest, e, 'normalize_to')
    c.eq(c.call('glm_quat_normalize', q).q, e, 'normalize')

@unit()
def addsub(c):
    p, q = c.vec('p', 4), c.vec('q', 4)
    c.eq(c.call('glm_quat_add', p, q).dest, vadd(p, q), 'add')
    c.eq(c.call('glm_quat_sub', p, q).dest, vsub(p, q), 'sub')

@unit()
def parts(c):
    q = c.vec('q', 4); im = q[:3]
    c.eq(c.call('glm_quat_real', q).ret, q[3], 'real')
    c.eq(c.call('glm_quat_imag', q).dest, im, 'imag')
    c.eq(c.call('glm_quat_imaglen', q).ret, norm(im), 'imaglen')

EPS = X(rc(1))/X(rc(2**23))
@unit()
def axis(c):
    q = c.vec('q', 4); im = q[:3]; n = norm(im)
    c.assume(n >= EPS)
    c.eq(c.call('glm_quat_imagn', q).dest, [v/n for v in im], 'imagn')
    c.eq(c.call('glm_quat_axis', q).dest, [v/n for v in im], 'axis')
@unit()
def axis0(c):
    w = c.scalar('w'); q = [ZERO, ZERO, ZERO, w]
    c.eq(c.call('glm_quat_imagn', q).dest, [ZERO]*3, 'imagn of a real quaternion')
    c.eq(c.call('glm_quat_axis', q).dest, [ZERO]*3, 'axis of a real quaternion')

@unit()
def angle(c):
    q = c.vec('q', 4)
    c.assume(norm2(q) > 0)
    c.eq(c.call('glm_quat_angle', q).ret, 2*atan2(norm(q[:3]), q[3]), 'angle')

@unit()
def make(c):
    a = c.angle('angle'); v = c.vec('axis', 3); n = norm(v); c.assume(n >= EPS)
    e = [sin(a/2)*k/n for k in v] + [cos(a/2)]
    c.eq(c.call('glm_quatv', angle=a, axis=v).q, e, 'quatv')
    c.eq(c.call('glm_quat', angle=a, x=v[0], y=v[1], z=v[2]).q, e, 'quat')

@unit()
def roundtrip(c):
    # axis-angle -> quaternion -> axis, angle, for half angles in (0, pi/2]: parametrised by the unit quaternion itself
    u = c.unit_vec('u', 3); a = c.scalar('half', genpos); c.assume(a > 0); c.assume(sin(a) > EPS)
    o = c.call('glm_quatv', angle=a*2, axis=u)
    c.eq(c.call('glm_quat_axis', o.q).dest, u, 'axis(quatv(angle,axis))')
    c.eq(norm2(o.q), ONE, 'unit')
    g = c.call('glm_quat_angle', o.q).ret
    c.eq(sin(g/2), sin(a), 'sin(angle/2)'); c.eq(cos(g/2), cos(a), 'cos(angle/2)')

@unit()
def const(c):
    x_, y, z, w = (c.scalar(k) for k in 'xyzw')
    c.eq(c.call('glm_quat_init', x=x_, y=y, z=z, w=w).q, [x_, y, z, w], 'init')
    c.eq(c.call('glm_quat_identity').q, [ZERO, ZERO, ZERO, ONE], 'identity')
    s = c.vec('s', 4)
    c.eq(c.call('glm_quat_make', src=s).dest, s, 'make')
    c.eq(c.call('glm_quat_copy', q=s).dest, s, 'copy')
