"""C17 view matrices"""
from engine.expr import *
from engine.runner import unit, units
from specs.c10 import qmat, ext, rot3

EPS = X(rc(1))/X(rc(2**23))
H = [('rh', 1), ('lh', -1)]
SFX = ['', '_no', '_zo']
VARI = [('%s%s' % (h, s), dict(sf='_%s%s' % (h, s), sg=sg)) for h, sg in H for s in SFX]
def each(name): return units([('%s_%s' % (name, n), p) for n, p in VARI])

def frame(d, up, sg):
    """right, up, forward of a camera looking along d"""
    n = norm(d); f = [e/n for e in d]
    r = cross(f, up) if sg > 0 else cross(up, f)
    k = norm(r); s = [e/k for e in r]
    u = cross(s, f) if sg > 0 else cross(f, s)
    return s, u, f
def viewmat(s, u, f, eye, sg):
    z = [-e for e in f] if sg > 0 else f
    return [[s[i], u[i], z[i], ZERO] for i in range(3)] + [[-dot(s, eye), -dot(u, eye), -dot(z, eye), ONE]]
def ok(c, d, up):
    n = norm(d); c.assume(n >= EPS)
    c.assume(norm(cross([e/n for e in d], up)) >= EPS)

@each('lookat')
def lookat(c, sf, sg):
    e, t, up = c.vec('eye', 3), c.vec('center', 3), c.vec('up', 3); d = vsub(t, e); ok(c, d, up)
    s, u, f = frame(d, up, sg)
    c.eq(c.call('glm_lookat' + sf, e, t, up).dest, viewmat(s, u, f, e, sg), 'lookat')
@each('look')
def look(c, sf, sg):
    e, d, up = c.vec('eye', 3), c.vec('dir', 3), c.vec('up', 3); ok(c, d, up)
    s, u, f = frame(d, up, sg)
    c.eq(c.call('glm_look' + sf, e, d, up).dest, viewmat(s, u, f, e, sg), 'look')
@each('rigid')
def rigid(c, sf, sg):
    # the same matrix, in the words of the property (unit direction)
    e, d, up = c.vec('eye', 3), c.unit_vec('dir', 3), c.vec('up', 3); c.assume(norm(cross(d, up)) >= EPS)
    m = cols(c.call('glm_look' + sf, e, d, up).dest, 4); r = [k[:3] for k in m[:3]]
    c.eq(mv(m, list(e) + [ONE]), [ZERO, ZERO, ZERO, ONE], 'eye -> origin')
    c.eq(mv(m, list(d) + [ZERO]), [ZERO, ZERO, x(-sg), ZERO], 'direction -> view axis')
    w = mv(m, list(up) + [ZERO])
    c.eq(w[0], ZERO, 'up in the YZ plane'); c.holds(w[1] > 0, 'up in the upper half')
    c.eq(mm(tr(r), r), ident(3), 'orthogonal'); c.eq(det(r), ONE, 'proper rotation')
    c.eq([k[3] for k in m], [ZERO, ZERO, ZERO, ONE], 'affine')
@each('anyup')
def anyup(c, sf, sg):
    e, d = c.vec('eye', 3), c.vec('dir', 3); n = norm(d); c.assume(n >= X(rc(1))/1024)
    m = cols(c.call('glm_look_anyup' + sf, e, d).dest, 4); r = [k[:3] for k in m[:3]]
    c.eq(mv(m, list(e) + [ONE]), [ZERO, ZERO, ZERO, ONE], 'eye -> origin')
    c.eq(mv(m, [k/n for k in d] + [ZERO]), [ZERO, ZERO, x(-sg), ZERO], 'direction -> view axis')
    c.eq(mm(tr(r), r), ident(3), 'orthogonal'); c.eq(det(r), ONE, 'proper rotation')
    c.eq([k[3] for k in m], [ZERO, ZERO, ZERO, ONE], 'affine')
@unit()
def quat_look(c):
    # the quaternion camera: same eye / direction contract
    e, q = c.vec('eye', 3), c.unit_vec('ori', 4)
    m = cols(c.call('glm_quat_look', e, q).dest, 4)
    c.eq(mv(m, list(e) + [ONE]), [ZERO, ZERO, ZERO, ONE], 'eye -> origin')
    c.eq(mv(m, rot3(q, [ZERO, ZERO, -ONE]) + [ZERO]), [ZERO, ZERO, -ONE, ZERO], 'facing direction -> -Z')
    c.eq(mv(m, rot3(q, [ZERO, ONE, ZERO]) + [ZERO]), [ZERO, ONE, ZERO, ZERO], 'camera up -> +Y')
