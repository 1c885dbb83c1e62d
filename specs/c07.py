"""C07 inverses and determinants"""
from engine.expr import *
from engine.runner import unit, units

@units([('mat%d_det' % n, dict(n=n)) for n in (2, 3, 4)])
def mdet(c, n):
    a = c.mat('a', n)
    c.eq(c.call('glm_mat%d_det' % n, a).ret, det(cols(a, n)), 'det')

@units([('mat%d_inv' % n, dict(n=n)) for n in (2, 3, 4)] + [('mat4_inv_fast', dict(n=4, f='_fast'))])
def inv(c, n, f=''):
    a = c.mat('a', n); d = det(cols(a, n)); c.assume(d.ne(0))
    o = c.call('glm_mat%d_inv%s' % (n, f), a); A, I = cols(a, n), cols(o.dest, n)
    c.eq(mm(I, A), ident(n), 'inv*m'); c.eq(mm(A, I), ident(n), 'm*inv')

def rotq(c, name='q'):
    q = c.unit_vec(name, 4); x_, y, z, w = q
    # rotation matrix of a unit quaternion: covers every rotation
    return q, [[1-2*(y*y+z*z), 2*(x_*y+w*z), 2*(x_*z-w*y)], [2*(x_*y-w*z), 1-2*(x_*x_+z*z), 2*(y*z+w*x_)], [2*(x_*z+w*y), 2*(y*z-w*x_), 1-2*(x_*x_+y*y)]]

@unit()
def inv_tr(c):
    q, Rm = rotq(c); t = c.vec('t', 3)
    m = [k + [ZERO] for k in Rm] + [t + [ONE]]
    o = c.call('glm_inv_tr', flat(m)); I = cols(o.mat, 4)
    c.eq(mm(I, m), ident(4), 'inv_tr*m'); c.eq(mm(m, I), ident(4), 'm*inv_tr')
