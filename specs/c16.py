"""C16 decomposition, resizing and far-plane moves of perspective matrices"""
from engine.expr import *
from engine.runner import unit, units
from specs.c15 import conv, F

def built(c, sf):
    """general frustum with a known matrix"""
    l, r, b, t, n, f = [c.scalar(k) for k in ('left', 'right', 'bottom', 'top', 'nearZ', 'farZ')]
    c.assume(n > 0); c.assume(n < f); c.assume(l < r); c.assume(b < t)
    return (l, r, b, t, n, f), c.call('glm_frustum' + sf, l, r, b, t, n, f).dest
def signed(c, sf):
    """the same construction with signs left open (flipped axes, reversed depth)"""
    a = c.angle('fovy'); asp, n, f = [c.scalar(k) for k in ('aspect', 'nearZ', 'farZ')]
    for e in (sin(a/2), cos(a/2), asp, n, f, n-f): c.assume(e.ne(0))
    return (a, asp, n, f), c.call('glm_perspective' + sf, a, asp, n, f).dest
def sym(c, sf):
    a = c.angle('fovy'); asp, n, f = [c.scalar(k) for k in ('aspect', 'nearZ', 'farZ')]
    c.assume(sin(a/2) > 0); c.assume(cos(a/2) > 0); c.assume(asp > 0); c.assume(n > 0); c.assume(n < f)
    return (a, asp, n, f), c.call('glm_perspective' + sf, a, asp, n, f).dest

@conv('decomp')
def decomp(c, sf, sg, lo):
    (l, r, b, t, n, f), m = built(c, sf)
    o = c.call('glm_persp_decomp' + sf, m)
    for k, v in (('left', l), ('right', r), ('bottom', b), ('top', t), ('nearZ', n), ('farZ', f)): c.eq(getattr(o, k)[0], v, k)
    c.eq(c.call('glm_persp_decompv' + sf, m).dest, [n, f, t, b, l, r], 'decompv')
@conv('decomp_parts')
def decomp_parts(c, sf, sg, lo):
    (l, r, b, t, n, f), m = built(c, sf)
    for fn, ks in (('x', dict(left=l, right=r)), ('y', dict(top=t, bottom=b)), ('z', dict(nearZ=n, farZ=f)), ('far', dict(farZ=f)), ('near', dict(nearZ=n))):
        o = c.call('glm_persp_decomp_' + fn + sf, m)
        for k, v in ks.items(): c.eq(getattr(o, k)[0], v, fn + '.' + k)
@conv('fov_aspect')
def fov_aspect(c, sf, sg, lo):
    (a, asp, n, f), m = sym(c, sf)
    r = c.call('glm_persp_fovy' + sf, m).ret
    c.eq(tan(r/2), tan(a/2), 'tan(fovy/2)'); c.holds(r > 0, 'fovy > 0'); c.holds(r < PI, 'fovy < pi')
    c.eq(c.call('glm_persp_aspect' + sf, m).ret, asp, 'aspect')
@conv('sizes')
def sizes(c, sf, sg, lo):
    (a, asp, n, f), m = sym(c, sf); t = tan(a/2)*2
    c.eq(c.call('glm_persp_sizes' + sf, m, a).dest, [t*n*asp, t*n, t*f*asp, t*f], 'sizes')
@conv('resize')
def resize(c, sf, sg, lo):
    (a, asp, n, f), m = sym(c, sf); asp2 = c.scalar('aspect2'); c.assume(asp2 > 0)
    c.eq(c.call('glm_perspective_resize' + sf, asp2, m).proj, c.call('glm_perspective' + sf, a, asp2, n, f).dest, 'resize')
@conv('resize_zero')
def resize_zero(c, sf, sg, lo):
    # a matrix without a horizontal scale is left alone
    m = c.vec('proj', 16); z = list(m); z[0] = ZERO; asp2 = c.scalar('aspect2'); c.assume(asp2 > 0)
    c.eq(c.call('glm_perspective_resize' + sf, asp2, z).proj, z, 'resize of a zero matrix')
@conv('move_far')
def move_far(c, sf, sg, lo):
    (a, asp, n, f), m = sym(c, sf); d = c.scalar('delta'); c.assume((f+d).ne(n))
    c.eq(c.call('glm_persp_move_far' + sf, m, d).proj, c.call('glm_perspective' + sf, a, asp, n, f+d).dest, 'move_far')
@conv('move_far_frustum')
def move_far_frustum(c, sf, sg, lo):
    (l, r, b, t, n, f), m = built(c, sf); d = c.scalar('delta'); c.assume((f+d).ne(n))
    c.eq(c.call('glm_persp_move_far' + sf, m, d).proj, c.call('glm_frustum' + sf, l, r, b, t, n, f+d).dest, 'move_far')
@conv('signed_edits')
def signed_edits(c, sf, sg, lo):
    (a, asp, n, f), m = signed(c, sf); asp2, d = c.scalar('aspect2'), c.scalar('delta'); c.assume(asp2.ne(0)); c.assume((f+d).ne(n))
    c.eq(c.call('glm_persp_aspect' + sf, m).ret, asp, 'aspect')
    c.eq(c.call('glm_perspective_resize' + sf, asp2, m).proj, c.call('glm_perspective' + sf, a, asp2, n, f).dest, 'resize')
    c.eq(c.call('glm_persp_move_far' + sf, m, d).proj, c.call('glm_perspective' + sf, a, asp, n, f+d).dest, 'move_far')
    o = c.call('glm_persp_decomp_z' + sf, m); c.eq(o.nearZ[0], n, 'nearZ'); c.eq(o.farZ[0], f, 'farZ')
