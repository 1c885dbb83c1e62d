"""C20 AABB (2D, 3D) and sphere operations on closed point sets"""
from engine.expr import *
from engine.runner import unit, units
BIG = X(rc(2**127)); FMAX = X(rc(2**128-2**104))
DIMS = [('aabb', dict(n=3, pre='glm_aabb')), ('aabb2d', dict(n=2, pre='glm_aabb2d'))]
def each(name): return units([('%s_%s' % (d, name), p) for d, p in DIMS])
def box(c, n, name='box', valid=True):
    b = c.vec(name, 2*n)
    if valid:
        for i in range(n): c.assume(b[i] <= b[n+i])
    return b, b[:n], b[n:]
def inside(p, lo, hi): return all_([(l <= e) & (e <= h) for e, l, h in zip(p, lo, hi)])
B = lambda o: P(tobool(o.ret))

@each('overlap')
def overlap(c, n, pre):
    c.linear()
    b, lo, hi = box(c, n); o, l2, h2 = box(c, n, 'other'); p = c.vec('p', n)
    r = B(c.call(pre + '_aabb', b, o))
    c.holds((inside(p, lo, hi) & inside(p, l2, h2)).implies(r), 'common point: overlap')
    w = [maxx(a, d) for a, d in zip(lo, l2)]
    c.holds(r.implies(inside(w, lo, hi) & inside(w, l2, h2)), 'overlap: common point')
@each('point')
def point(c, n, pre):
    c.linear(); b, lo, hi = box(c, n, valid=False); p = c.vec('point', n)
    c.holds(B(c.call(pre + '_point', b, p)).iff(inside(p, lo, hi)), 'point')
@each('contains')
def contains(c, n, pre):
    c.linear(); b, lo, hi = box(c, n); o, l2, h2 = box(c, n, 'other')
    c.holds(B(c.call(pre + '_contains', b, o)).iff(inside(l2, lo, hi) & inside(h2, lo, hi)), 'contains')
@each('merge')
def merge(c, n, pre):
    c.linear(); b, lo, hi = box(c, n, 'b1', False); o, l2, h2 = box(c, n, 'b2', False)
    d = c.call(pre + '_merge', b, o).dest
    for i in range(n):
        c.eq(d[i], minx(lo[i], l2[i]), 'lower %d' % i); c.eq(d[n+i], maxx(hi[i], h2[i]), 'upper %d' % i)
@each('crop')
def crop(c, n, pre):
    c.linear(); b, lo, hi = box(c, n, 'b1', False); o, l2, h2 = box(c, n, 'b2', False); p = c.vec('p', n)
    d = c.call(pre + '_crop', b, o).dest
    c.holds(inside(p, d[:n], d[n:]).iff(inside(p, lo, hi) & inside(p, l2, h2)), 'crop = intersection')
    for i in range(n):
        c.eq(d[i], maxx(lo[i], l2[i]), 'lower %d' % i); c.eq(d[n+i], minx(hi[i], h2[i]), 'upper %d' % i)
@each('crop_until')
def crop_until(c, n, pre):
    c.linear(); b, lo, hi = box(c, n, 'b1', False); o, l2, h2 = box(c, n, 'b2', False); k, l3, h3 = box(c, n, 'clamp', False)
    d = c.call(pre + '_crop_until', b, o, k).dest
    for i in range(n):
        c.eq(d[i], minx(l3[i], maxx(lo[i], l2[i])), 'lower %d' % i); c.eq(d[n+i], maxx(h3[i], minx(hi[i], h2[i])), 'upper %d' % i)
@each('measure')
def measure(c, n, pre):
    b, lo, hi = box(c, n, valid=False); d = vsub(hi, lo)
    c.eq(c.call(pre + ('_size' if n == 3 else '_diag'), b).ret, norm(d), 'size'); c.eq(c.call(pre + '_radius', b).ret, norm(d)/2, 'radius')
    c.eq(c.call(pre + '_center', b).dest, [(l+h)/2 for l, h in zip(lo, hi)], 'center')
    if n == 2:
        c.eq(c.call(pre + '_sizev', b).dest, d, 'sizev'); c.eq(c.call(pre + '_copy', b).dest, b, 'copy'); c.eq(c.call(pre + '_zero', b).aabb, [ZERO]*4, 'zero')
@each('validity')
def validity(c, n, pre):
    c.linear(); b, lo, hi = box(c, n, valid=False)
    for e in b: c.assume(e <= FMAX); c.assume(e >= -FMAX)
    inv = [v for v in vars(c.call(pre + '_invalidate', b)).values() if isinstance(v, list)][0]
    c.eq(inv, [FMAX]*n + [-FMAX]*n, 'invalidated box')
    c.holds(~B(c.call(pre + '_isvalid', inv)), 'an invalidated box is invalid')
    c.holds(B(c.call(pre + '_isvalid', b)).iff(all_([e.ne(FMAX) for e in lo]) & all_([e.ne(-FMAX) for e in hi])), 'isvalid')
    c.eq(c.call(pre + '_merge', inv, b).dest, b, 'merging into an invalidated box gives the other box')
@each('validity_marks')
def validity_marks(c, n, pre):
    # the same definition with every component either exactly a mark (+-FLT_MAX) or an ordinary value: the witnesses are floats
    c.linear(); b, lo, hi = box(c, n, valid=False)
    for e in b: c.assume(any_([e.eq(FMAX), e.eq(-FMAX), (e <= 1000) & (e >= -1000)]))
    c.holds(B(c.call(pre + '_isvalid', b)).iff(all_([e.ne(FMAX) for e in lo]) & all_([e.ne(-FMAX) for e in hi])), 'isvalid, marked components')
@each('transform')
def transform(c, n, pre):
    c.linear(); b, lo, hi = box(c, n); m = c.mat('m', n+1); M = cols(m, n+1); p = c.vec('p', n)
    for i in range(n):
        for j in range(n):
            a, l, h = M[j][i]*p[j], M[j][i]*lo[j], M[j][i]*hi[j]; pr = (lo[j] <= p[j]) & (p[j] <= hi[j])
            c.lemma(pr.implies((M[j][i] >= 0).implies((l <= a) & (a <= h)) & (M[j][i] <= 0).implies((h <= a) & (a <= l))))
            c.lemma((M[j][i] >= 0).implies(l <= h) & (M[j][i] <= 0).implies(h <= l))
    d = c.call(pre + '_transform', b, m).dest
    for i in range(n):
        q = sum_([M[j][i]*p[j] for j in range(n)]) + M[n][i]
        c.holds(inside(p, lo, hi).implies((d[i] <= q) & (q <= d[n+i])), 'contains every transformed point, axis %d' % i)
        cs = [sum_([M[j][i]*(hi if k >> j & 1 else lo)[j] for j in range(n)]) + M[n][i] for k in range(2**n)]
        c.holds(any_([d[i].eq(e) for e in cs]), 'tight below, axis %d' % i); c.holds(any_([d[n+i].eq(e) for e in cs]), 'tight above, axis %d' % i)

@units([('aabb_sphere', dict(n=3, fn='glm_aabb_sphere')), ('aabb2d_circle', dict(n=2, fn='glm_aabb2d_circle'))])
def box_ball(c, n, fn):
    b, lo, hi = box(c, n); s = c.vec('s', n+1); c.assume(s[n] >= 0)
    near = [where(s[i] < lo[i], lo[i], where(s[i] > hi[i], hi[i], s[i])) for i in range(n)]
    c.holds(B(c.call(fn, b, s)).iff(norm2(vsub(s[:n], near)) <= s[n]*s[n]), 'the closest point of the box is in the ball')
@unit()
def sphere_sphere(c):
    a, b = c.vec('s1', 4), c.vec('s2', 4); c.assume(a[3] >= 0); c.assume(b[3] >= 0)
    c.holds(B(c.call('glm_sphere_sphere', a, b)).iff(norm(vsub(a[:3], b[:3])) <= a[3]+b[3]), 'centre distance <= sum of radii')
@unit()
def sphere_point(c):
    a, p = c.vec('s', 4), c.vec('point', 3); c.assume(a[3] >= 0)
    c.holds(B(c.call('glm_sphere_point', a, p)).iff(norm(vsub(a[:3], p)) <= a[3]), 'distance <= radius')
@unit()
def sphere_misc(c):
    a, m = c.vec('s', 4), c.mat('m', 4)
    c.eq(c.call('glm_sphere_radii', a).ret, a[3], 'radii')
    c.eq(c.call('glm_sphere_transform', a, m).dest, mv(cols(m, 4), a[:3] + [ONE])[:3] + [a[3]], 'transform: centre moved, radius kept')
@unit()
def sphere_merge(c):
    a, b = c.vec('s1', 4), c.vec('s2', 4); c.assume(a[3] >= 0); c.assume(b[3] >= 0)
    o = c.call('glm_sphere_merge', a, b).dest
    c.eq(o[:3], [(p+q)/2 for p, q in zip(a[:3], b[:3])], 'centre')
    for k, s in (('first', a), ('second', b)):
        c.holds(o[3] >= s[3], 'radius >= %s radius' % k)
        c.holds((o[3]-s[3])*(o[3]-s[3]) >= norm2(vsub(o[:3], s[:3])), 'encloses the %s' % k)
