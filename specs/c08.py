"""C08 matrix algebra"""
from engine.expr import *
from engine.runner import unit, units

SQ = [2, 3, 4]; NS = [(2, 3), (2, 4), (3, 2), (3, 4), (4, 2), (4, 3)]   # (cols, rows)

@units([('mat%d_mul' % n, dict(n=n)) for n in SQ])
def mul(c, n):
    a, b = c.mat('a', n), c.mat('b', n)
    o = c.call('glm_mat%d_mul' % n, a, b)
    c.eq(o.dest, mm(cols(a, n), cols(b, n)), 'product')

@units([('mat%d_mulv' % n, dict(n=n)) for n in SQ])
def mulv(c, n):
    a, v = c.mat('a', n), c.vec('v', n)
    c.eq(c.call('glm_mat%d_mulv' % n, a, v).dest, mv(cols(a, n), v), 'm*v')

@unit()
def mat4_mulv3(c):
    a, v, w = c.mat('a', 4), c.vec('v', 3), c.scalar('last')
    c.eq(c.call('glm_mat4_mulv3', a, v, w).dest, mv(cols(a, 4), v + [w])[:3], 'm*(v,last)')

@units([('mat%d_rmc' % n, dict(n=n)) for n in SQ])
def rmc(c, n):
    r, a, v = c.vec('r', n), c.mat('a', n), c.vec('v', n)
    c.eq(c.call('glm_mat%d_rmc' % n, r, a, v).ret, dot(r, mv(cols(a, n), v)), 'r*m*c')

@units([('mat%d_transpose' % n, dict(n=n)) for n in SQ])
def transpose(c, n):
    a = c.mat('a', n); t = tr(cols(a, n))
    c.eq(c.call('glm_mat%d_transpose_to' % n, a).dest, t, 'transpose_to')
    o = c.call('glm_mat%d_transpose' % n, a)
    c.eq(o.m, t, 'transpose')

@units([('mat%d_scale' % n, dict(n=n)) for n in SQ])
def scale(c, n):
    a, s = c.mat('a', n), c.scalar('s')
    c.eq(c.call('glm_mat%d_scale' % n, a, s).m, [e*s for e in a], 'scale')
    if n == 4: c.eq(c.call('glm_mat4_scale_p', a, s).m, [e*s for e in a], 'scale_p')

@units([('mat%d_trace' % n, dict(n=n)) for n in SQ])
def trace(c, n):
    a = c.mat('a', n)
    c.eq(c.call('glm_mat%d_trace' % n, a).ret, sum_([a[i*n+i] for i in range(n)]), 'trace')
    if n == 4: c.eq(c.call('glm_mat4_trace3', a).ret, sum_([a[i*n+i] for i in range(3)]), 'trace3')

@units([('mat%d_swap_%d%d' % (n, i, j), dict(n=n, i=i, j=j)) for n in SQ for i in range(n) for j in range(n)])
def swap(c, n, i, j):
    a = c.mat('a', n); m = cols(a, n)
    k = list(range(n)); k[i], k[j] = k[j], k[i]
    c.eq(c.call('glm_mat%d_swap_col' % n, a, i, j).mat, [m[q] for q in k], 'swap_col')
    c.eq(c.call('glm_mat%d_swap_row' % n, a, i, j).mat, [[col[q] for q in k] for col in m], 'swap_row')

@unit()
def mat4_pick_ins(c):
    a = c.mat('a', 4); s = [k[:3] for k in cols(a, 4)[:3]]
    c.eq(c.call('glm_mat4_pick3', a).dest, s, 'pick3')
    c.eq(c.call('glm_mat4_pick3t', a).dest, tr(s), 'pick3t')
    b = c.mat('b', 3); o = c.call('glm_mat4_ins3', mat=b, dest=a); m = cols(a, 4)
    exp = [[b[i*3+j] if i < 3 and j < 3 else m[i][j] for j in range(4)] for i in range(4)]
    c.eq(o.dest, exp, 'ins3')

@units([('mat4_mulN_%d' % n, dict(n=n)) for n in range(2, 13)])
def mulN(c, n):
    ms = [c.mat('a%d' % i, 4) for i in range(n)]
    o = c.call('glm_mat4_mulN', matrices=ms)
    r = cols(ms[0], 4)
    if n <= 4:
        for m in ms[1:]: r = mm(r, cols(m, 4))
    else:       # chains: against the pairwise product, itself specified above
        r = ms[0]
        for m in ms[1:]: r = c.call('glm_mat4_mul', r, m).dest
    c.eq(o.dest, r, 'm0*m1*...')

@units([('mat%dx%d' % (k, r), dict(k=k, r=r)) for k, r in NS])
def nonsq(c, k, r):
    nm = 'glm_mat%dx%d' % (k, r)
    a = c.vec('a', k*r); b = c.vec('b', k*r); v = c.vec('v', k); s = c.scalar('s')
    A = cols(a, r); Bm = cols(b, k)
    c.eq(c.call(nm + '_mul', a, b).dest, mm(A, Bm), 'product')
    c.eq(c.call(nm + '_mulv', a, v).dest, mv(A, v), 'm*v')
    c.eq(c.call(nm + '_transpose', a).dest, tr(A), 'transpose')
    c.eq(c.call(nm + '_scale', a, s).m, [e*s for e in a], 'scale')

@units([('mat%d_identity' % n, dict(n=n)) for n in SQ])
def identity(c, n):
    o = c.call('glm_mat%d_identity' % n, c.mat('a', n)); m = [v for k, v in o.__dict__.items() if k in ('m', 'mat')][0]
    c.eq(m, ident(n), 'identity')
