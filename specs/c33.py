"""C33 SIMD helper layer (glmm_*): each helper computes the operation its name stands for, lane by lane"""
from engine.expr import *
from engine import build as B, dag as D
from engine.runner import unit, units
STRUCT = True
SHIM_NAMES = [n for n in B.API if n.startswith('glms_x_v_')]
X86 = ['sse2', 'sse3', 'sse4', 'avx', 'fma', 'unal', 'unal_avx']; ARM = ['neon', 'neon32']; WASM = ['wasm']
CFGS = X86 + ARM + WASM
def lanes(c, n, k, wide=False): return [c.vec(p, 16 if wide else 4) for p in 'abc'[:k]]
def total(v):
    s = v[0]
    for e in v[1:]: s = s + e
    return s
def most(f, v): return f(f(v[0], v[1]), f(v[2], v[3]))
FMA = {'fmadd': lambda a, b, c: a*b + c, 'fnmadd': lambda a, b, c: c - a*b, 'fmsub': lambda a, b, c: a*b - c, 'fnmsub': lambda a, b, c: -(a*b) - c}
@units([(('256' if w else '') + n, dict(n=n, w=w)) for n in FMA for w in (False, True)])
def fma(c, n, w):
    """fmadd a*b+c, fnmadd -(a*b)+c, fmsub a*b-c, fnmsub -(a*b)-c"""
    v = lanes(c, n, 3, w)
    c.eq(c.call('glms_x_v_' + ('256' if w else '') + n, *v).dest[:8], [FMA[n](p, q, r) for p, q, r in zip(*v)][:8], n)
LANE = {'min': (2, minx), 'max': (2, maxx), 'abs': (1, absx), 'div': (2, lambda p, q: p/q), 'neg': (1, lambda p: -p), 'neg_w': (1, lambda p: -p), '256neg': (1, lambda p: -p), '256copy': (1, lambda p: p)}
@units([(n, dict(n=n)) for n in LANE])
def lane(c, n):
    if n == 'div' and c.cfg == 'neon32': return   # a reciprocal estimate there: C03
    k, f = LANE[n]; v = lanes(c, n, k, n[:3] == '256')
    if n == 'div':
        for e in v[1]: c.assume(e.ne(0))
    c.eq(c.call('glms_x_v_' + n, *v).dest[:8], [f(*z) for z in zip(*v)][:8], n)
@unit()
def sums(c):
    a, b = lanes(c, 'sums', 2)
    dot = total([p*q for p, q in zip(a, b)])
    c.eq(c.call('glms_x_v_vhadd', a).dest, [total(a)]*4, 'vhadd in every lane'); c.eq(c.call('glms_x_v_hadd', a).ret, total(a), 'hadd')
    c.eq(c.call('glms_x_v_vdot', a, b).dest, [dot]*4, 'vdot in every lane'); c.eq(c.call('glms_x_v_dot', a, b).ret, dot, 'dot')
    if c.cfg not in ARM:
        c.eq(c.call('glms_x_v_vhadds', a).dest[0], total(a), 'vhadds in lane 0'); c.eq(c.call('glms_x_v_vdots', a, b).dest[0], dot, 'vdots in lane 0')
@unit()
def extremes(c):
    a, = lanes(c, 'extremes', 1)
    c.eq(c.call('glms_x_v_hmin', a).ret, most(minx, a), 'hmin'); c.eq(c.call('glms_x_v_hmax', a).ret, most(maxx, a), 'hmax')
    if c.cfg not in ARM: c.eq(c.call('glms_x_v_vhmin', a).dest[0], most(minx, a), 'vhmin in lane 0'); c.eq(c.call('glms_x_v_vhmax', a).dest[0], most(maxx, a), 'vhmax in lane 0')
@unit()
def norms(c):
    a, = lanes(c, 'norms', 1); m = [absx(e) for e in a]
    c.eq(c.call('glms_x_v_norm2', a).ret, total([e*e for e in a]), 'norm2'); c.eq(c.call('glms_x_v_norm_one', a).ret, total(m), 'norm_one')
    r = c.call('glms_x_v_norm', a).ret
    c.holds(r >= 0, 'norm is not negative'); c.eq(r*r, total([e*e for e in a]), 'norm squared')
@units([('norm_inf_%d_%d' % (k, t), dict(k=k, t=t)) for k in range(16) for t in range(4)])
def norm_inf(c, k, t):
    # split by the signs and by the position of the largest magnitude
    a, = lanes(c, 'norm_inf', 1)
    m = [a[j] if k >> j & 1 else -a[j] for j in range(4)]
    for j in range(4): c.assume(m[j] >= 0 if k >> j & 1 else a[j] < 0)
    for j in range(4):
        if j != t: c.assume(m[t] >= m[j])
    c.eq(c.call('glms_x_v_norm_inf', a).ret, m[t], 'norm_inf')
@unit()
def moves(c):
    a, b = lanes(c, 'moves', 2)
    for i, k in enumerate('xyzw'): c.eq(c.call('glms_x_v_splat_' + k, a).dest, [a[i]]*4, 'splat ' + k)
    for i, k in ((1, 'set1'), (2, 'set1_ptr'), (3, 'set1_rval')): c.eq(c.call('glms_x_v_' + k, a).dest, [a[i]]*4, k)
    if c.cfg in ARM:
        c.eq(c.call('glms_x_v_swplane', a).dest, a[2:] + a[:2], 'swplane')
        for k in ('ll', 'hl', 'lh', 'hh'): c.eq(c.call('glms_x_v_combine_' + k, a, b).dest, (a[2:] if k[0] == 'h' else a[:2]) + (b[2:] if k[1] == 'h' else b[:2]), 'combine_' + k)
        return
    # the last argument of glmm_shuff1 selects lane 0, the first lane 3
    for z, y, x, w in B.SHUF: c.eq(c.call('glms_x_v_shuff1_%d%d%d%d' % (z, y, x, w), a).dest, [a[w], a[x], a[y], a[z]], 'shuff1 %d %d %d %d' % (z, y, x, w))
    c.eq(c.call('glms_x_v_load3', a).dest[:3], a[:3], 'load3'); c.eq(c.call('glms_x_v_store3', a).v, a[:3], 'store3')
