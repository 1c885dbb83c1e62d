"""C19 frustum planes, corners, centre, boxes"""
from engine.expr import *
from engine.runner import unit, units
EPS = X(rc(1))/X(rc(2**23))
# index -> (axis, side): inside means side*clip[axis] <= w
PL = [(0, -1), (0, 1), (1, -1), (1, 1), (2, -1), (2, 1)]
@units([('plane_%d' % i, dict(i=i)) for i in range(6)])
def planes(c, i):
    ax, s = PL[i]; m = c.mat('m', 4); M = cols(m, 4)
    raw = [M[k][3] - M[k][ax]*s for k in range(4)]
    n = norm(raw[:3]); c.assume(n >= EPS); o = c.call('glm_frustum_planes', m).dest[4*i:4*i+4]
    c.eq(o, [e/n for e in raw], 'plane')
@units([('inside_%d' % i, dict(i=i)) for i in range(6)])
def inside(c, i):
    ax, s = PL[i]; m = c.mat('m', 4); M = cols(m, 4); p = c.vec('p', 3)
    n = norm([M[k][3] - M[k][ax]*s for k in range(3)]); c.assume(n >= EPS)
    o = c.call('glm_frustum_planes', m).dest[4*i:4*i+4]
    q = mv(M, p + [ONE]); d = dot(o[:3], p) + o[3]
    c.eq(d*n, q[3]-q[ax]*s, 'signed distance = clip slack')
@unit()
def plane_normalize(c):
    p = c.vec('plane', 4); n = norm(p[:3]); c.assume(n >= EPS)
    c.eq(c.call('glm_plane_normalize', p).plane, [e/n for e in p], 'plane_normalize')
@unit()
def plane_normalize_zero(c):
    p = c.vec('plane', 4); c.assume(norm(p[:3]) < EPS)
    c.eq(c.call('glm_plane_normalize', p).plane, [ZERO]*4, 'degenerate plane -> zero')
ORDER = [(-1, -1, -1), (-1, 1, -1), (1, 1, -1), (1, -1, -1), (-1, -1, 1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)]
@unit()
def corners(c):
    m = c.mat('invMat', 4); o = cols(c.call('glm_frustum_corners', m).dest, 4)
    for k, cc in enumerate(ORDER):
        q = mv(cols(m, 4), [x(v) for v in cc] + [ONE])
        c.eq(o[k], [e/q[3] for e in q], 'corner %d' % k)
@unit()
def center(c):
    k = c.vec('corners', 32); o = c.call('glm_frustum_center', k).dest
    c.eq(o, [sum_([k[4*i+j] for i in range(8)])/8 for j in range(4)], 'center')
@unit()
def corners_at(c):
    k = c.vec('corners', 32); s, f = c.scalar('splitDist'), c.scalar('farDist'); c.assume(f.ne(0))
    K = cols(k, 4); dist = norm(vsub(K[6][:3], K[2][:3])); sc = dist*(s/f)
    o = cols(c.call('glm_frustum_corners_at', k, s, f).planeCorners, 4)
    for j in range(4):
        d = vsub(K[4+j], K[j]); n = norm(d)
        c.assume(n >= EPS)
        c.eq(o[j], [K[j][i] + d[i]*sc/n for i in range(4)], 'corner %d at distance' % j)
BIG = X(rc(2**127))
@units([('box_%s' % 'xyz'[a], dict(a=a)) for a in range(3)])
def box(c, a):
    k = c.vec('corners', 32); m = c.mat('m', 4); M = cols(m, 4)
    c.linear()
    v = [mv(M, k[4*i:4*i+4])[a] for i in range(8)]
    for e in v: c.assume(e <= BIG); c.assume(e >= -BIG)
    o = c.call('glm_frustum_box', k, m).box; lo, hi = o[a], o[3+a]
    c.holds(all_([lo <= e for e in v]), 'lower bound'); c.holds(any_([lo.eq(e) for e in v]), 'lower bound attained')
    c.holds(all_([hi >= e for e in v]), 'upper bound'); c.holds(any_([hi.eq(e) for e in v]), 'upper bound attained')
