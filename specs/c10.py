"""C10 quaternions and rotations"""
from engine.expr import *
from engine.runner import unit, units
from specs.c09 import ham, conj

EPSF = X(rc(1))/X(rc(2**23))
GE = X(rc(1))/X(rc(100000))
def qmat(q):
    """rotation matrix (columns) of a unit quaternion: v -> q v q*"""
    out = []
    for k in range(3):
        e = [ONE if i == k else ZERO for i in range(3)] + [ZERO]
        out.append(ham(ham(q, e), conj(q))[:3])
    return out
def rot3(q, v): return ham(ham(q, list(v) + [ZERO]), conj(q))[:3]
def ext(m): return [k + [ZERO] for k in m] + [[ZERO, ZERO, ZERO, ONE]]

@unit()
def mats(c):
    q = c.unit_vec('q', 4); Rm = qmat(q)
    c.eq(c.call('glm_quat_mat3', q).dest, Rm, 'mat3')
    c.eq(c.call('glm_quat_mat3t', q).dest, tr(Rm), 'mat3t')
    c.eq(c.call('glm_quat_mat4', q).dest, ext(Rm), 'mat4')
    c.eq(c.call('glm_quat_mat4t', q).dest, tr(ext(Rm)), 'mat4t')
    c.eq(c.call('glm_quat_mat3', q=[ZERO]*3 + [ONE]).dest, ident(3), 'mat3(identity)')

@unit()
def rotatev(c):
    q = c.unit_vec('q', 4); v = c.vec('v', 3)
    c.eq(c.call('glm_quat_rotatev', q, v).dest, rot3(q, v), 'rotatev')
@unit()
def rotatev_scaled(c):
    # rotatev normalises: any non-zero quaternion
    q = c.vec('q', 4); v = c.vec('v', 3); n2 = norm2(q); c.assume(n2 > 0)
    c.eq(c.call('glm_quat_rotatev', q, v).dest, [e/n2 for e in rot3(q, v)], 'rotatev')
@unit()
def compose(c):
    p, q = c.unit_vec('p', 4), c.unit_vec('q', 4)
    o = c.call('glm_quat_mul', p, q)
    c.eq(c.call('glm_quat_mat3', o.dest).dest, mm(qmat(p), qmat(q)), 'mat3(p*q)=mat3(p)*mat3(q)')

@unit()
def rotate(c):
    m = c.mat('m', 4); q = c.unit_vec('q', 4)
    c.eq(c.call('glm_quat_rotate', m, q).dest, mm(cols(m, 4), ext(qmat(q))), 'm*R')
def trans(v): return [k for k in ident(4)[:3]] + [list(v) + [ONE]]
@unit()
def rotate_at(c):
    m = c.mat('m', 4); q = c.unit_vec('q', 4); p = c.vec('pivot', 3)
    piv = mm(mm(trans(p), ext(qmat(q))), trans([-e for e in p]))
    c.eq(c.call('glm_quat_rotate_at', m, q, p).m, mm(cols(m, 4), piv), 'rotate_at')
    c.eq(c.call('glm_quat_rotate_atm', m, q, p).m, piv, 'rotate_atm')

# every rotation matrix is qmat of a unit quaternion; the four branches are the four largest components
@units([('mat3_quat', dict(n=3)), ('mat4_quat', dict(n=4))])
def matquat(c, n):
    q = c.unit_vec('q', 4); Rm = qmat(q)
    if n == 4:
        t = c.vec('t', 7)      # translation and the last row do not matter
        m = [k + [t[i]] for i, k in enumerate(Rm)] + [t[3:]]
    else: m = Rm
    c.hint(q[0]*2, q[1]*2, q[2]*2, q[3]*2)
    o = c.call('glm_mat%d_quat' % n, flat(m)).dest
    # equal up to overall sign: o_i q_j = q_i o_j  and |o| = 1
    for i in range(4):
        for j in range(i+1, 4): c.eq(o[i]*q[j], q[i]*o[j], 'parallel%d%d' % (i, j))
    c.eq(norm2(o), ONE, 'unit')

@unit()
def from_vecs(c):
    a, b = c.unit_vec('a', 3), c.unit_vec('b', 3); d = dot(a, b)
    c.assume(d < 1-GE); c.assume(d > -1+GE)
    q = c.call('glm_quat_from_vecs', a, b).dest
    c.eq(norm2(q), ONE, 'unit')
    c.eq(rot3(q, a), b, 'rotates a onto b')
    # shortest arc: the axis is orthogonal to both and the angle is below pi
    c.eq(dot(q[:3], a), ZERO, 'axis orthogonal to a'); c.holds(q[3] > 0, 'shortest arc')
@unit()
def from_vecs_same(c):
    a, b = c.unit_vec('a', 3), c.unit_vec('b', 3); d = dot(a, b)
    c.assume(d >= 1-GE)
    c.eq(c.call('glm_quat_from_vecs', a, b).dest, [ZERO]*3 + [ONE], 'parallel: identity')
@unit()
def from_vecs_opposite(c):
    a = c.unit_vec('a', 3)
    q = c.call('glm_quat_from_vecs', a, [-e for e in a]).dest
    c.eq(norm2(q), ONE, 'unit')
    c.eq(q[3], ZERO, 'half turn')
    c.eq(dot(q[:3], a), ZERO, 'axis orthogonal')

def facing(c, q, d, up, tag):
    n = norm(d)
    z = [e/n for e in d]
    c.eq(norm2(q), ONE, tag + 'unit')
    c.eq(rot3(q, [ZERO, ZERO, -ONE]), z, tag + 'faces dir')
    # right axis = dir x up normalised: with the above this fixes the whole frame, up in the upper half plane
    r = cross(z, up); nr = norm(r)
    c.eq(rot3(q, [ONE, ZERO, ZERO]), [e/nr for e in r], tag + 'right = dir x up')

@unit()
def quat_for(c):
    d, up = c.vec('dir', 3), c.vec('up', 3)
    c.assume(norm(d) >= EPSF)
    z = vscale(d, 1/norm(d)); c.assume(norm(cross(up, z)) >= EPSF)
    q = c.call('glm_quat_for', d, up).dest
    facing(c, q, d, up, '')
@unit()
def quat_forp(c):
    f, t, up = c.vec('from', 3), c.vec('to', 3), c.vec('up', 3)
    d = vsub(t, f)
    o = c.call('glm_quat_forp', f, t, up).dest
    c.eq(o, c.call('glm_quat_for', d, up).dest, 'forp = for(to-from)')
@unit()
def quat_look(c):
    e, q = c.vec('eye', 3), c.unit_vec('ori', 4); Rt = tr(qmat(q))
    o = c.call('glm_quat_look', e, q).dest
    c.eq(o, [k + [ZERO] for k in Rt] + [[-v for v in mv(Rt, e)] + [ONE]], 'view matrix')
