"""C22 ray intersections"""
from engine.expr import *
from engine.runner import unit, units
B = lambda o: P(tobool(o.ret))
EPS = X(rc(1))/1000000

def tri(c):
    o, d, v0 = c.vec('origin', 3), c.vec('direction', 3), c.vec('v0', 3)
    e1, e2 = c.vec('e1', 3), c.vec('e2', 3)
    return o, d, v0, e1, e2
def solve(c):
    """origin = v0 + u*e1 + v*e2 - t*direction : every origin has exactly one (u, v, t) when the determinant is not zero"""
    d, v0, e1, e2 = c.vec('direction', 3), c.vec('v0', 3), c.vec('e1', 3), c.vec('e2', 3)
    u, v, t = c.scalar('u'), c.scalar('v'), c.scalar('t')
    o = [v0[i] + u*e1[i] + v*e2[i] - t*d[i] for i in range(3)]
    return o, d, v0, vadd(v0, e1), vadd(v0, e2), u, v, t, dot(e1, cross(d, e2))
@unit()
def triangle(c):
    # the origin is described by where the ray's line meets the triangle's plane
    o, d, v0, v1, v2, u, v, t, det_ = solve(c); c.assume((det_ >= EPS) | (det_ <= -EPS))
    c.assume((t > EPS) | (t <= 0))          # general position: not within 1e-6 of the origin
    r = c.call('glm_ray_triangle', o, d, v0, v1, v2)
    hit = (u >= 0) & (v >= 0) & (u+v <= 1) & (t > 0)
    c.holds(B(r).implies(hit), 'reported hit is a hit'); c.holds(hit.implies(B(r)), 'hit is reported')
    c.holds(B(r).implies(r.d[0].eq(t)), 'distance')
@unit()
def triangle_point(c):
    # in the ray's own words: origin + distance*direction is the point of the triangle
    o, d, v0, v1, v2, u, v, t, det_ = solve(c); c.assume((det_ >= EPS) | (det_ <= -EPS)); c.assume(t > EPS)
    for e in (u, v): c.assume(e >= 0)
    c.assume(u+v <= 1)
    r = c.call('glm_ray_triangle', o, d, v0, v1, v2)
    p = c.call('glm_ray_at', o, d, r.d[0]).point
    c.eq(p, [(1-u-v)*v0[i] + u*v1[i] + v*v2[i] for i in range(3)], 'hit point')
@unit()
def triangle_parallel(c):
    o, d, v0, e1, e2 = tri(c); c.assume(dot(e1, cross(d, e2)).eq(0))
    c.holds(~B(c.call('glm_ray_triangle', o, d, v0, vadd(v0, e1), vadd(v0, e2))), 'parallel ray: no hit')
def line(c):
    """sphere centre = origin + b*dir + w, w perpendicular to dir (w = dir x k: every perpendicular vector has that form)"""
    o, d, k, b = c.vec('origin', 3), c.unit_vec('dir', 3), c.vec('k', 3), c.scalar('b')
    w = cross(d, k); return o, d, b, w, [o[i] + b*d[i] + w[i] for i in range(3)]
@unit()
def sphere_miss(c):
    o, d, b, w, ce = line(c); r = c.scalar('r'); c.assume(r*r < norm2(w))
    c.holds(~B(c.call('glm_ray_sphere', o, d, ce + [r])), 'the line misses the sphere: no hit')
@unit()
def sphere_hit(c):
    # half chord h: r^2 = h^2 + |w|^2
    o, d, b, w, ce = line(c); h = c.scalar('h'); c.assume(h >= 0); r = c.root('r', h*h + norm2(w))
    c.hint(h)
    q = c.call('glm_ray_sphere', o, d, ce + [r])
    c.holds(B(q).iff(b+h >= 0), 'hit unless the sphere lies behind')
    c.eq(q.t1[0], b-h, 'entry parameter'); c.eq(q.t2[0], b+h, 'exit parameter')
@unit()
def sphere_point(c):
    o, d, b, w, ce = line(c); h = c.scalar('h'); c.assume(h >= 0); r = c.root('r', h*h + norm2(w)); c.hint(h); c.assume(b+h >= 0)
    q = c.call('glm_ray_sphere', o, d, ce + [r])
    for nm, t in (('entry', q.t1[0]), ('exit', q.t2[0])):
        p = c.call('glm_ray_at', o, d, t).point
        c.eq(norm2(vsub(p, ce)), r*r, nm + ' point on the sphere')
@unit()
def ray_at(c):
    o, d, t = c.vec('orig', 3), c.vec('dir', 3), c.scalar('t')
    c.eq(c.call('glm_ray_at', o, d, t).point, [o[i] + t*d[i] for i in range(3)], 'origin + t*direction')

@unit()
def sphere_domain(c):
    o, d, s = c.vec('origin', 3), c.vec('dir', 3), c.vec('s', 4)
    q = c.call('glm_ray_sphere', o, d, s)
    c.domain(q.t1[0], 'entry parameter is a number')
