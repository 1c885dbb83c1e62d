"""C12 Euler angles"""
from engine.expr import *
from engine.runner import unit, units
from specs.c09 import ham
from specs.c10 import qmat

def ax(k, s, c_):
    i, j = (k+1) % 3, (k+2) % 3
    m = ident(4); m[i][i] = c_; m[i][j] = s; m[j][i] = -s; m[j][j] = c_
    return m
ORD = ['xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx']
def emat(a, o):
    r = ident(4)
    for ch in o:
        k = 'xyz'.index(ch); r = mm(r, ax(k, sin(a[k]), cos(a[k])))
    return r
def code(o): return sum('xyz'.index(ch) << (2*i) for i, ch in enumerate(o))
def angles(c): return [c.angle('a%d' % i) for i in range(3)]

@units([('euler_' + o, dict(o=o)) for o in ORD])
def euler(c, o):
    a = angles(c); e = emat(a, o)
    c.eq(c.call('glm_euler_' + o, a).dest, e, 'R%s*R%s*R%s' % tuple(o))
    if o == 'xyz': c.eq(c.call('glm_euler', a).dest, e, 'glm_euler')
@units([('by_order_' + o, dict(o=o)) for o in ORD])
def by_order(c, o):
    a = angles(c); e = emat(a, o)
    r = c.call('glm_euler_by_order', angles=a, ord=code(o)).dest
    c.eq(r, e, 'by_order')

@units([('order_' + o, dict(o=o)) for o in ORD])
def order(c, o):
    r = c.call('glm_euler_order', [ 'xyz'.index(ch) for ch in o]).ret
    from engine import dag as D
    c.holds(D.icmp('eq', r, D.iconst(code(o), 'i32')), 'sequence code')

def qax(k, a):
    v = [ZERO]*3 + [cos(a/2)]; v[k] = sin(a/2); return v
@units([('quat_%s_%s' % (o, h), dict(o=o, h=h)) for o in ORD for h in ('rh', 'lh')])
def quats(c, o, h):
    a = angles(c); b = list(a)
    if h == 'lh': b[2] = -b[2]       # documented: the only difference is the sign of the z sine
    q = [ZERO, ZERO, ZERO, ONE]
    for ch in o: q = ham(q, qax('xyz'.index(ch), b['xyz'.index(ch)]))
    r = c.call('glm_euler_%s_quat_%s' % (o, h), a).dest
    c.eq(r, q, 'quat')
    if h == 'rh':
        c.eq([k[:3] for k in cols(c.call('glm_quat_mat4', r).dest, 4)[:3]], [k[:3] for k in emat(a, o)[:3]], 'same rotation as the matrix')
        c.eq(c.call('glm_euler_%s_quat' % o, a).dest, q, 'default is RH')

def rebuild(c, m, tag):
    a = c.call('glm_euler_angles', flat([k + [ZERO] for k in m] + [[ZERO, ZERO, ZERO, ONE]])).dest
    r = c.call('glm_euler_xyz', a).dest
    c.eq([k[:3] for k in cols(r, 4)[:3]], m, tag)

@unit()
def extract(c):
    q = c.unit_vec('q', 4); m = qmat(q)
    c.assume(m[2][0] < 1); c.assume(m[2][0] > -1)
    rebuild(c, m, 'rebuilds the matrix')
@units([('extract_lock_up', dict(sg=1)), ('extract_lock_down', dict(sg=-1))])
def lock(c, sg):
    # rotations with m[2][0] = +-1: q = (a, s b, s a, b), 2(a^2+b^2) = 1, i.e. an angle
    u = c.unit_vec('u', 2); s, k = u
    # m = RotY(+-90) composed with RotX
    m = [[ZERO, s, -k*sg], [ZERO, k, s*sg], [x(sg), ZERO, ZERO]]
    rebuild(c, m, 'gimbal lock')
    o = c.call('glm_euler_angles', flat([k + [ZERO] for k in m] + [[ZERO, ZERO, ZERO, ONE]])).dest
    c.eq(o[1], PI/2*sg, 'theta y'); c.eq(o[2], ZERO, 'theta z')
