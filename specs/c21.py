"""C21 frustum culling"""
from engine.expr import *
from engine.runner import unit, units
from specs.c19 import plane_normalize as _pn, EPS
B = lambda o: P(tobool(o.ret))
@unit()
def culling(c):
    c.linear(); b = c.vec('box', 6); pl = c.vec('planes', 24)
    for i in range(3): c.assume(b[i] <= b[3+i])
    out = []
    for k in range(6):
        p = pl[4*k:4*k+4]
        for i in range(3):
            l, h = p[i]*b[i], p[i]*b[3+i]
            c.lemma((p[i] >= 0).implies(l <= h) & (p[i] <= 0).implies(h <= l))
        # the whole box strictly behind = all eight corners strictly behind (linear function on a box)
        out.append(all_([sum_([p[i]*b[3*(m >> i & 1)+i] for i in range(3)]) + p[3] < 0 for m in range(8)]))
    r = B(c.call('glm_aabb_frustum', b, pl))
    c.holds((~r).implies(any_(out)), "'outside' only when the whole box is behind one plane")
    for k in range(6): c.holds(out[k].implies(~r), "behind plane %d: 'outside'" % k)
@units([('point_%d' % k, dict(k=k)) for k in range(6)])
def visible(c, k):
    # a box with any point on the inner side of every plane is never dropped
    b = c.vec('box', 6); p = c.vec('plane', 4); q = c.vec('p', 3)
    for i in range(3): c.assume(b[i] <= q[i]); c.assume(q[i] <= b[3+i])
    c.assume(dot(p[:3], q) + p[3] >= 0)
    free = [ZERO, ZERO, ZERO, ONE]; planes = sum(([p if j == k else free for j in range(6)]), [])
    c.holds(B(c.call('glm_aabb_frustum', b, planes)), 'box with a visible point is kept')
@unit()
def plane_normalize(c):
    p = c.vec('plane', 4); q = c.vec('q', 3); n = norm(p[:3]); c.assume(n >= EPS)
    o = c.call('glm_plane_normalize', p).plane
    c.eq(norm2(o[:3]), ONE, 'unit normal')
    d, e = dot(o[:3], q) + o[3], dot(p[:3], q) + p[3]
    c.holds((e > 0).implies(d > 0), 'same half-space +'); c.holds((e < 0).implies(d < 0), 'same half-space -'); c.eq(d*n, e, 'signed distance')
