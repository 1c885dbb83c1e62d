"""C13 3D affine transforms.  'pre' helpers: m' = m*E;  'post' helpers (-ed names): m' = E*m, m affine"""
from engine.expr import *
from engine.runner import unit, units
from specs.c12 import ax
from specs.c10 import qmat, ext

EPS = X(rc(1))/X(rc(2**23))
def T(v): return [k for k in ident(4)[:3]] + [list(v) + [ONE]]
def S(v): return [[v[i] if i == j and i < 3 else (ONE if i == j else ZERO) for i in range(4)] for j in range(4)]
def Rax(v, a):
    """rotation by a about the unit axis v (Rodrigues)"""
    s, c_ = sin(a), cos(a); k = 1-c_; x_, y, z = v
    return [[c_+k*x_*x_, k*x_*y+s*z, k*x_*z-s*y, ZERO], [k*x_*y-s*z, c_+k*y*y, k*y*z+s*x_, ZERO], [k*x_*z+s*y, k*y*z-s*x_, c_+k*z*z, ZERO], [ZERO, ZERO, ZERO, ONE]]
def aff(c, name='m'):
    a = c.vec(name, 12); return [a[i:i+3] + [ONE if i == 9 else ZERO] for i in (0, 3, 6, 9)]
def neg(v): return [-e for e in v]

@unit()
def translate(c):
    m = c.mat('m', 4); v = c.vec('v', 3); M = cols(m, 4); e = mm(M, T(v))
    c.eq(c.call('glm_translate', m, v).m, e, 'translate'); c.eq(c.call('glm_translate_to', m, v).dest, e, 'translate_to')
    c.eq(c.call('glm_translate_make', m, v).m, T(v), 'translate_make')
    for k, ch in enumerate('xyz'):
        w = [ZERO]*3; w[k] = v[k]
        c.eq(c.call('glm_translate_' + ch, m, v[k]).m, mm(M, T(w)), 'translate_' + ch)
@unit()
def translated(c):
    M = aff(c); m = flat(M); v = c.vec('v', 3); e = mm(T(v), M)
    c.eq(c.call('glm_translated', m, v).m, e, 'translated'); c.eq(c.call('glm_translated_to', m, v).dest, e, 'translated_to')
    for k, ch in enumerate('xyz'):
        w = [ZERO]*3; w[k] = v[k]
        c.eq(c.call('glm_translated_' + ch, m, v[k]).m, mm(T(w), M), 'translated_' + ch)
@unit()
def scale(c):
    m = c.mat('m', 4); v = c.vec('v', 3); s = c.scalar('s'); M = cols(m, 4)
    c.eq(c.call('glm_scale', m, v).m, mm(M, S(v)), 'scale'); c.eq(c.call('glm_scale_to', m, v).dest, mm(M, S(v)), 'scale_to')
    c.eq(c.call('glm_scale_make', m, v).m, S(v), 'scale_make'); c.eq(c.call('glm_scale_uni', m, s).m, mm(M, S([s]*3)), 'scale_uni')
@units([('rotate_' + ch, dict(k=k, ch=ch)) for k, ch in enumerate('xyz')])
def rot_axis(c, k, ch):
    m = c.mat('m', 4); a = c.angle('a'); R = ax(k, sin(a), cos(a))
    c.eq(c.call('glm_rotate_' + ch, m, a).dest, mm(cols(m, 4), R), 'rotate_' + ch)
@units([('rotated_' + ch, dict(k=k, ch=ch)) for k, ch in enumerate('xyz')])
def rotd_axis(c, k, ch):
    M = aff(c); a = c.angle('a'); R = ax(k, sin(a), cos(a))
    c.eq(c.call('glm_rotated_' + ch, flat(M), a).dest, mm(R, M), 'rotated_' + ch)

def axis_angle(c):
    a = c.angle('a'); v = c.vec('axis', 3); n = norm(v); c.assume(n >= EPS)
    return a, v, Rax([e/n for e in v], a)
@unit()
def rotate_make(c):
    m = c.mat('m', 4); a, v, R = axis_angle(c)
    o = c.call('glm_rotate_make', m, a, v).m
    c.eq(o, R, 'rotate_make')
@unit()
def rotate_proper(c):
    m = c.mat('m', 4); a = c.angle('a'); v = c.unit_vec('u', 3)
    o = [k[:3] for k in cols(c.call('glm_rotate_make', m, a, v).m, 4)[:3]]
    c.eq(mm(o, tr(o)), ident(3), 'orthogonal'); c.eq(det(o), ONE, 'det 1'); c.eq(mv(o, v), v, 'axis fixed')
@unit()
def rotate(c):
    m = c.mat('m', 4); a, v, R = axis_angle(c)
    c.eq(c.call('glm_rotate', m, a, v).m, mm(cols(m, 4), R), 'rotate')
@unit()
def rotated(c):
    M = aff(c); a, v, R = axis_angle(c)
    c.eq(c.call('glm_rotated', flat(M), a, v).m, mm(R, M), 'rotated')
@unit()
def rotate_at(c):
    m = c.mat('m', 4); p = c.vec('pivot', 3); a, v, R = axis_angle(c); E = mm(mm(T(p), R), T(neg(p)))
    c.eq(c.call('glm_rotate_at', m, p, a, v).m, mm(cols(m, 4), E), 'rotate_at')
    c.eq(c.call('glm_rotate_atm', m, p, a, v).m, E, 'rotate_atm')
@unit()
def rotated_at(c):
    M = aff(c); p = c.vec('pivot', 3); a, v, R = axis_angle(c); E = mm(mm(T(p), R), T(neg(p)))
    c.eq(c.call('glm_rotated_at', flat(M), p, a, v).m, mm(E, M), 'rotated_at')
@unit()
def spin(c):
    # around the object itself: pre keeps the position column, post turns about the world position
    M = aff(c); a, v, R = axis_angle(c); p = M[3][:3]
    c.eq(c.call('glm_spin', flat(M), a, v).m, mm(M, R), 'spin')
    c.eq(c.call('glm_spinned', flat(M), a, v).m, mm(mm(mm(T(p), R), T(neg(p))), M), 'spinned')
@unit()
def mul(c):
    A, B = aff(c, 'a'), aff(c, 'b')
    c.eq(c.call('glm_mul', flat(A), flat(B)).dest, mm(A, B), 'affine product')
    r = c.vec('r', 9); R = ext(cols(r, 3))
    c.eq(c.call('glm_mul_rot', flat(A), flat(R)).dest, mm(A, R), 'affine * rotation')
    c.eq(c.call('glm_mul', flat(A), flat(R)).dest, mm(A, R), 'affine * linear')
@unit()
def mul_general(c):
    # the left factor may be any matrix (view-projection * model)
    a = c.mat('a', 4); B = aff(c, 'b'); r = c.vec('r', 9); R = ext(cols(r, 3))
    c.eq(c.call('glm_mul', a, flat(B)).dest, mm(cols(a, 4), B), 'mul'); c.eq(c.call('glm_mul_rot', a, flat(R)).dest, mm(cols(a, 4), R), 'mul_rot')
@unit()
def inv_tr(c):
    q = c.unit_vec('q', 4); t = c.vec('t', 3); m = mm(T(t), ext(qmat(q)))
    I = cols(c.call('glm_inv_tr', flat(m)).mat, 4)
    c.eq(mm(I, m), ident(4), 'inverse')

def trs(c):
    q = c.unit_vec('q', 4); t = c.vec('t', 3); s = [c.scalar('s%d' % i) for i in range(3)]
    R = ext(qmat(q)); return t, R, s, mm(mm(T(t), R), S(s))
@unit()
def decompose_pos(c):
    t, R, s, m = trs(c)
    for e in s: c.assume(e > 0)
    c.hint(*s)
    o = c.call('glm_decompose', flat(m))
    c.eq(o.t, t + [ONE], 't'); c.eq(o.r, R, 'r'); c.eq(o.s, s, 's')
    p = c.call('glm_decompose_rs', flat(m)); c.eq(p.r, R, 'rs.r'); c.eq(p.s, s, 'rs.s')
    c.eq(c.call('glm_decompose_scalev', flat(m)).s, s, 'scalev')
@unit()
def decompose_any(c):
    # scales of any sign: the factors multiply back to the matrix, r is a proper rotation
    t, R, s, m = trs(c)
    for e in s: c.assume(e.ne(0))
    c.hint(*s)
    o = c.call('glm_decompose', flat(m)); r = cols(o.r, 4)
    c.eq(mm(mm(T(o.t[:3]), r), S(o.s)), m, 't*r*s'); c.eq(o.t, t + [ONE], 't')
    r3 = [k[:3] for k in r[:3]]; c.eq(det(r3), ONE, 'det r'); c.eq(mm(r3, tr(r3)), ident(3), 'r orthogonal')
    c.eq([e*e for e in o.s], [e*e for e in s], '|s|')
    c.eq([e*e for e in c.call('glm_decompose_scalev', flat(m)).s], [e*e for e in s], 'scalev')
@unit()
def uniscaled(c):
    m = c.mat('m', 4); n = [norm(k[:3]) for k in cols(m, 4)[:3]]
    r = P(tobool(c.call('glm_uniscaled', m).ret))
    tol = X(rc(21))/X(rc(1000000))
    c.holds((n[0].eq(n[1]) & n[0].eq(n[2])).implies(r), 'equal column lengths: uniscaled')
    c.holds(r.implies(all_([d <= tol for i, j in ((0, 1), (0, 2), (1, 2)) for d in (n[i]-n[j], n[j]-n[i])])), 'uniscaled: column lengths equal up to the comparison epsilon')
