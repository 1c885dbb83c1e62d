"""C14 2D affine transforms and texture transforms"""
from engine.expr import *
from engine.runner import unit, units

def T(x_, y): return [[ONE, ZERO, ZERO], [ZERO, ONE, ZERO], [x(x_), x(y), ONE]]
def S(x_, y): return [[x(x_), ZERO, ZERO], [ZERO, x(y), ZERO], [ZERO, ZERO, ONE]]
def R(a): return [[cos(a), sin(a), ZERO], [-sin(a), cos(a), ZERO], [ZERO, ZERO, ONE]]
@unit()
def pre(c):
    m = c.mat('m', 3); v = c.vec('v', 2); s = c.scalar('s'); M = cols(m, 3)
    t, k = mm(M, T(*v)), mm(M, S(*v))
    c.eq(c.call('glm_translate2d', m, v).m, t, 'translate2d'); c.eq(c.call('glm_translate2d_to', m, v).dest, t, 'translate2d_to')
    c.eq(c.call('glm_translate2d_x', m, v[0]).m, mm(M, T(v[0], 0)), 'translate2d_x'); c.eq(c.call('glm_translate2d_y', m, v[1]).m, mm(M, T(0, v[1])), 'translate2d_y')
    c.eq(c.call('glm_translate2d_make', m, v).m, T(*v), 'translate2d_make')
    c.eq(c.call('glm_scale2d', m, v).m, k, 'scale2d'); c.eq(c.call('glm_scale2d_to', m, v).dest, k, 'scale2d_to')
    c.eq(c.call('glm_scale2d_make', m, v).m, S(*v), 'scale2d_make'); c.eq(c.call('glm_scale2d_uni', m, s).m, mm(M, S(s, s)), 'scale2d_uni')
@unit()
def rot(c):
    m = c.mat('m', 3); a = c.angle('a'); e = mm(cols(m, 3), R(a))
    c.eq(c.call('glm_rotate2d', m, a).m, e, 'rotate2d'); c.eq(c.call('glm_rotate2d_to', m, a).dest, e, 'rotate2d_to')
    c.eq(c.call('glm_rotate2d_make', m, a).m, R(a), 'rotate2d_make')
@unit()
def post(c):
    a = c.vec('m', 6); M = [a[:2] + [ZERO], a[2:4] + [ZERO], a[4:] + [ONE]]; m = flat(M)
    v = c.vec('v', 2); s = c.scalar('s'); g = c.angle('a')
    c.eq(c.call('glm_translated2d', m, v).m, mm(T(*v), M), 'translated2d'); c.eq(c.call('glm_translated2d_x', m, v[0]).m, mm(T(v[0], 0), M), 'translated2d_x')
    c.eq(c.call('glm_translated2d_y', m, v[1]).m, mm(T(0, v[1]), M), 'translated2d_y')
    c.eq(c.call('glm_rotated2d', m, g).m, mm(R(g), M), 'rotated2d')
    c.eq(c.call('glm_scaled2d', m, v).m, mm(S(*v), M), 'scaled2d'); c.eq(c.call('glm_scaled2d_uni', m, s).m, mm(S(s, s), M), 'scaled2d_uni')
@unit()
def post_general(c):
    # linear post transforms need no affine last row
    m = c.mat('m', 3); M = cols(m, 3); v = c.vec('v', 2); s = c.scalar('s'); g = c.angle('a')
    c.eq(c.call('glm_rotated2d', m, g).m, mm(R(g), M), 'rotated2d')
    c.eq(c.call('glm_scaled2d', m, v).m, mm(S(*v), M), 'scaled2d'); c.eq(c.call('glm_scaled2d_uni', m, s).m, mm(S(s, s), M), 'scaled2d_uni')
@unit()
def textrans(c):
    sx, sy, tx, ty = (c.scalar(k) for k in ('sx', 'sy', 'tx', 'ty')); a = c.angle('a')
    e = mm(T(tx, ty), mm(S(sx, sy), R(-a)))      # translate * scale * rotation, v axis pointing down
    c.eq(c.call('glm_mat3_textrans', sx=sx, sy=sy, rot=a, tx=tx, ty=ty).dest, e, 'mat3')
    z = [ZERO]
    c.eq(c.call('glm_mat4_textrans', sx=sx, sy=sy, rot=a, tx=tx, ty=ty).dest, [e[0][:2] + [ZERO, ZERO], e[1][:2] + [ZERO, ZERO], [ZERO, ZERO, ONE, ZERO], e[2][:2] + [ZERO, ONE]], 'mat4')
