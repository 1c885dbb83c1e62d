"""C18 project / unproject / pick matrix"""
from engine.expr import *
from engine.runner import unit, units
DEPTH = [('no', dict(sf='_no')), ('zo', dict(sf='_zo'))]
def each(name): return units([('%s_%s' % (name, n), p) for n, p in DEPTH])
H = X(rc(1))/2
def screen(q, vp, sf):
    """clip coordinates -> window"""
    n = [q[i]/q[3] for i in range(3)]
    return [vp[0] + vp[2]*(n[0]+1)*H, vp[1] + vp[3]*(n[1]+1)*H, (n[2]+1)*H if sf == '_no' else n[2]]
@each('project')
def project(c, sf):
    p, m, vp = c.vec('pos', 3), c.mat('m', 4), c.vec('vp', 4)
    q = mv(cols(m, 4), p + [ONE]); c.assume(q[3].ne(0))
    s = screen(q, vp, sf)
    c.eq(c.call('glm_project' + sf, p, m, vp).dest, s, 'project'); c.eq(c.call('glm_project_z' + sf, p, m).ret, s[2], 'project_z')
@each('unprojecti')
def unprojecti(c, sf):
    # v is the clip point that lands on pos; invMat*v must come back divided by w
    m, vp, n = c.mat('invMat', 4), c.vec('vp', 4), c.vec('ndc', 3)
    c.assume(vp[2].ne(0)); c.assume(vp[3].ne(0))
    q = mv(cols(m, 4), n + [ONE]); c.assume(q[3].ne(0))
    pos = screen(n + [ONE], vp, sf)
    c.eq(c.call('glm_unprojecti' + sf, pos, m, vp).dest, [q[i]/q[3] for i in range(3)], 'unprojecti')
@each('roundtrip')
def roundtrip(c, sf):
    # unproject undoes project for a matrix and its inverse (inverse written as adjugate/det of a free matrix is C07; here a
    # general affine-times-perspective family keeps the identity decidable)
    p, vp = c.vec('pos', 3), c.vec('vp', 4); c.assume(vp[2].ne(0)); c.assume(vp[3].ne(0))
    a, b, cc, d, e, f = [c.scalar('k%d' % i) for i in range(6)]
    for k in (a, b, d): c.assume(k.ne(0))
    M = [[a, ZERO, ZERO, ZERO], [ZERO, b, ZERO, ZERO], [e, f, cc, ONE], [ZERO, ZERO, d, ZERO]]
    I = [[1/a, ZERO, ZERO, ZERO], [ZERO, 1/b, ZERO, ZERO], [ZERO, ZERO, ZERO, 1/d], [-e/a, -f/b, ONE, -cc/d]]
    c.assume(p[2].ne(0))
    w = c.call('glm_project' + sf, p, flat(M), vp).dest
    c.eq(c.call('glm_unprojecti' + sf, w, flat(I), vp).dest, p, 'unprojecti(project(p))')
@unit()
def unproject(c):
    # default (NO) convention: unproject = unprojecti with the inverse matrix
    p, vp = c.vec('pos', 3), c.vec('vp', 4); c.assume(vp[2].ne(0)); c.assume(vp[3].ne(0))
    a, b, cc, d, e, f = [c.scalar('k%d' % i) for i in range(6)]
    for k in (a, b, d): c.assume(k.ne(0))
    M = [[a, ZERO, ZERO, ZERO], [ZERO, b, ZERO, ZERO], [e, f, cc, ONE], [ZERO, ZERO, d, ZERO]]
    c.assume(p[2].ne(0))
    w = screen(mv(M, p + [ONE]), vp, '_no')
    c.eq(c.call('glm_unproject', w, flat(M), vp).dest, p, 'unproject(project(p))')
@unit()
def unproject_inv(c):
    p, m, vp = c.vec('pos', 3), c.mat('m', 4), c.vec('vp', 4); c.assume(vp[2].ne(0)); c.assume(vp[3].ne(0))
    i = c.call('glm_mat4_inv', m).dest
    c.eq(c.call('glm_unproject', p, m, vp).dest, c.call('glm_unprojecti', p, i, vp).dest, 'unproject = unprojecti . inv')
@unit()
def pick(c):
    ce, sz, vp = c.vec('center', 2), c.vec('size', 2), c.vec('vp', 4)
    c.assume(sz[0] > 0); c.assume(sz[1] > 0); c.assume(vp[2].ne(0)); c.assume(vp[3].ne(0))
    m = cols(c.call('glm_pickmatrix', ce, sz, vp).dest, 4)
    for i, a in enumerate((-1, 1)):
        for j, b in enumerate((-1, 1)):
            # window corner of the pick region -> ndc -> pick matrix -> clip square corner
            wx, wy = ce[0] + sz[0]*H*a, ce[1] + sz[1]*H*b
            nd = [(wx-vp[0])*2/vp[2]-1, (wy-vp[1])*2/vp[3]-1]
            for z in (0, 1): c.eq(mv(m, nd + [x(z), ONE]), [x(a), x(b), x(z), ONE], 'corner %d%d z%d' % (i, j, z))
@unit()
def pick_empty(c):
    ce, sz, vp, d = c.vec('center', 2), c.vec('size', 2), c.vec('vp', 4), c.vec('dest', 16)
    c.assume((sz[0] <= 0) | (sz[1] <= 0))
    c.eq(c.call('glm_pickmatrix', ce, sz, vp, d).dest, d, 'empty region: matrix untouched')
