"""C15 projections map their view volume onto the named clip volume.
RH views look down -Z, LH views down +Z; NO clips z to -w..w, ZO to 0..w."""
from engine.expr import *
from engine.runner import unit, units

CONV = [(h + '_' + d, dict(sf='_%s_%s' % (h, d), sg=-1 if h == 'rh' else 1, lo=-1 if d == 'no' else 0)) for h in ('rh', 'lh') for d in ('no', 'zo')]
def conv(name): return units([('%s_%s' % (name, n), p) for n, p in CONV])
def clip(m, p): return mv(cols(m, 4), list(p) + [ONE])
F = lambda s: X(rc(s))

def volume(c, m, l, r, b, t, n, f, sg, lo, persp):
    """8 corners of the volume -> 8 corners of the clip cube"""
    for zi, (d, cz) in enumerate(((n, lo), (f, 1))):
        k = d/n if persp else ONE
        for xi, (px, cx) in enumerate(((l, -1), (r, 1))):
            for yi, (py, cy) in enumerate(((b, -1), (t, 1))):
                w = d if persp else ONE
                c.eq(clip(m, [x(px)*k, x(py)*k, x(d)*sg]), [w*cx, w*cy, w*cz, w], 'corner %s%s%s' % ('lr'[xi], 'bt'[yi], 'nf'[zi]))

def six(c):
    l, r, b, t, n, f = [c.scalar(k) for k in ('left', 'right', 'bottom', 'top', 'nearZ', 'farZ')]
    c.assume(l.ne(r)); c.assume(b.ne(t)); c.assume(n.ne(f)); return l, r, b, t, n, f

@conv('frustum')
def frustum(c, sf, sg, lo):
    l, r, b, t, n, f = six(c); c.assume(n.ne(0))
    volume(c, c.call('glm_frustum' + sf, l, r, b, t, n, f).dest, l, r, b, t, n, f, sg, lo, True)
def persp_volume(c, m, th, aspect, n, f, sg, lo):
    t = n*th; r = t*aspect
    volume(c, m, -r, r, -t, t, n, f, sg, lo, True)
@conv('perspective')
def perspective(c, sf, sg, lo):
    a = c.angle('fovy'); asp, n, f = [c.scalar(k) for k in ('aspect', 'nearZ', 'farZ')]
    th = tan(a/2); c.assume(th.ne(0)); c.assume(cos(a/2).ne(0)); c.assume(asp.ne(0)); c.assume(n.ne(f)); c.assume(n.ne(0))
    persp_volume(c, c.call('glm_perspective' + sf, a, asp, n, f).dest, th, asp, n, f, sg, lo)
@conv('perspective_default')
def perspective_default(c, sf, sg, lo):
    asp = c.scalar('aspect'); c.assume(asp.ne(0))
    persp_volume(c, c.call('glm_perspective_default' + sf, asp).dest, tan(PI/8), asp, F(1)/100, F(100), sg, lo)
@conv('ortho')
def ortho(c, sf, sg, lo):
    l, r, b, t, n, f = six(c)
    volume(c, c.call('glm_ortho' + sf, l, r, b, t, n, f).dest, l, r, b, t, n, f, sg, lo, False)
def near_far(z0, z1, sg):
    """the box's z range seen from the origin along the view direction"""
    return (z0, z1) if sg > 0 else (-z1, -z0)
@conv('ortho_aabb')
def ortho_aabb(c, sf, sg, lo):
    b = c.vec('box', 6); pad = c.scalar('padding'); lo3, hi3 = b[:3], b[3:]
    for nm, pxy, pz in (('', 0, 0), ('_p', pad, pad), ('_pz', 0, pad)):
        p3 = [x(pxy), x(pxy), x(pz)]
        L = [lo3[i]-p3[i] for i in range(3)]; H = [hi3[i]+p3[i] for i in range(3)]
        for i in range(3): c.assume(L[i].ne(H[i]))
        m = c.call('glm_ortho_aabb' + nm + sf, *([b, pad] if nm else [b])).dest
        n, f = near_far(L[2], H[2], sg)
        volume(c, m, L[0], H[0], L[1], H[1], n, f, sg, lo, False)
@conv('ortho_default')
def ortho_default(c, sf, sg, lo):
    asp = c.scalar('aspect'); c.assume(asp > 0)
    w = where(asp >= 1, asp, ONE); h = where(asp >= 1, ONE, F(1)/asp)
    volume(c, c.call('glm_ortho_default' + sf, asp).dest, -w, w, -h, h, F(-100), F(100), sg, lo, False)
@conv('ortho_default_s')
def ortho_default_s(c, sf, sg, lo):
    asp = c.scalar('aspect'); s = c.scalar('size'); c.assume(asp > 0); c.assume(s > 0)
    w = s*where(asp >= 1, asp, ONE); h = s*where(asp >= 1, ONE, F(1)/asp)
    volume(c, c.call('glm_ortho_default_s' + sf, asp, s).dest, -w, w, -h, h, -s-100, s+100, sg, lo, False)
