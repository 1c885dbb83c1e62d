"""C28 componentwise arithmetic and data movement"""
from engine.expr import *
from engine import dag as D
from engine.runner import unit, units
DIM = (2, 3, 4)
def fmod(a, b): return fn('fmod', a, b)

BIN = {'add': lambda a, b: a+b, 'sub': lambda a, b: a-b, 'mul': lambda a, b: a*b, 'div': lambda a, b: a/b, 'maxv': maxx, 'minv': minx}
SC = {'adds': lambda a, s: a+s, 'subs': lambda a, s: a-s, 'scale': lambda a, s: a*s, 'divs': lambda a, s: a/s, 'mods': fmod}
ACC = {'addadd': lambda d, a, b: d+(a+b), 'subadd': lambda d, a, b: d+(a-b), 'muladd': lambda d, a, b: d+a*b, 'maxadd': lambda d, a, b: d+maxx(a, b), 'minadd': lambda d, a, b: d+minx(a, b),
       'subsub': lambda d, a, b: d-(a-b), 'addsub': lambda d, a, b: d-(a+b), 'mulsub': lambda d, a, b: d-a*b, 'maxsub': lambda d, a, b: d-maxx(a, b), 'minsub': lambda d, a, b: d-minx(a, b)}
ACCS = {'muladds': lambda d, a, s: d+a*s, 'mulsubs': lambda d, a, s: d-a*s}
NAMES = [('vec%d_%s' % (n, k), dict(n=n, k=k)) for n in DIM for k in list(BIN) + list(SC) + list(ACC) + list(ACCS)]
@units(NAMES)
def arith(c, n, k):
    f = 'glm_vec%d_%s' % (n, k)
    a = c.vec('a', n)
    if k in BIN:
        b = c.vec('b', n)
        if k == 'div':
            for e in b: c.assume(e.ne(0))
        c.eq(c.call(f, a, b).dest, [BIN[k](p, q) for p, q in zip(a, b)], k)
    elif k in SC:
        s = c.scalar('s')
        if k in ('divs', 'mods'): c.assume(s.ne(0))
        c.eq(c.call(f, a, s).dest, [SC[k](p, s) for p in a], k)
    elif k in ACC:
        b, d = c.vec('b', n), c.vec('d', n)
        c.eq(c.call(f, a, b, d).dest, [ACC[k](z, p, q) for p, q, z in zip(a, b, d)], k)
    else:
        s, d = c.scalar('s'), c.vec('d', n)
        c.eq(c.call(f, a, s, d).dest, [ACCS[k](z, p, s) for p, z in zip(a, d)], k)

@units([('negate%d' % n, dict(n=n)) for n in DIM])
def negate(c, n):
    v = c.vec('v', n)
    c.eq(c.call('glm_vec%d_negate_to' % n, v).dest, [-e for e in v], 'negate_to')
    c.eq(c.call('glm_vec%d_negate' % n, v=v).v, [-e for e in v], 'negate')
@units([('abs%d' % n, dict(n=n)) for n in DIM])
def absolute(c, n):
    v = c.vec('v', n); c.eq(c.call('glm_vec%d_abs' % n, v).dest, [absx(e) for e in v], 'abs')
@units([('sqrt%d' % n, dict(n=n)) for n in DIM])
def root(c, n):
    v = c.vec('v', n)
    for e in v: c.assume(e >= 0)
    c.eq(c.call('glm_vec%d_sqrt' % n, v).dest, [sqrt(e) for e in v], 'sqrt')
@units([('floor%d' % n, dict(n=n)) for n in DIM])
def floor_(c, n):
    v = c.vec('v', n)
    c.eq(c.call('glm_vec%d_floor' % n, v).dest, [fn('floor', e) for e in v], 'floor')
@units([('complex_accum', {})])
def scalars(c):
    a, b = c.scalar('a'), c.scalar('b')
    c.eq(c.call('glm_min', a, b).ret, minx(a, b), 'min'); c.eq(c.call('glm_max', a, b).ret, maxx(a, b), 'max')
    o = c.call('glm_swapf', [a], [b]); c.eq(o.a, [b], 'swap a'); c.eq(o.b, [a], 'swap b')

# ---------------------------------------------------------------- movement
@units([('swizzle2_%d' % m, dict(n=2, m=m)) for m in range(16) if m & 2 == 0 and m & 8 == 0] +
       [('swizzle3_%d' % m, dict(n=3, m=m)) for m in range(64) if all((m >> (2*i)) & 3 < 3 for i in range(3))] +
       [('swizzle4_%d' % m, dict(n=4, m=m)) for m in range(256)])
def swizzle(c, n, m):
    v = c.vec('v', n)
    c.eq(c.call('glm_vec%d_swizzle' % n, v, m).dest, [v[(m >> (2*i)) & 3] for i in range(n)], 'component i comes from bits 2i,2i+1 of the mask')
MASKS = {'xxx': [0]*3, 'yyy': [1]*3, 'zzz': [2]*3, 'zyx': [2, 1, 0], 'xxxx': [0]*4, 'yyyy': [1]*4, 'zzzz': [2]*4, 'wwww': [3]*4, 'wzyx': [3, 2, 1, 0]}
@units([('mask_' + k, dict(k=k)) for k in MASKS])
def masks(c, k):
    v = c.vec('v', len(MASKS[k])); c.eq(c.call('glm_x_swz_' + k, v).dest, [v[i] for i in MASKS[k]], 'named mask')

COPIES = [('glm_vec2_copy', 2), ('glm_vec3_copy', 3), ('glm_vec4_copy', 4), ('glm_vec4_ucopy', 4), ('glm_quat_copy', 4), ('glm_mat2_copy', 4), ('glm_mat3_copy', 9), ('glm_mat4_copy', 16), ('glm_mat4_ucopy', 16),
          ('glm_aabb2d_copy', 4), ('glm_x_vec3_dup', 3), ('glm_x_vec4_dup', 4), ('glm_x_mat3_dup', 9), ('glm_x_mat4_dup', 16), ('glm_x_mat4_udup', 16)] + \
         [('glm_mat%s_copy' % s, int(s[0])*int(s[2])) for s in ('2x3', '2x4', '3x2', '3x4', '4x2', '4x3')]
MAKES = [('glm_vec2_make', 2), ('glm_vec3_make', 3), ('glm_vec4_make', 4), ('glm_quat_make', 4), ('glm_mat2_make', 4), ('glm_mat3_make', 9), ('glm_mat4_make', 16)] + \
        [('glm_mat%s_make' % s, int(s[0])*int(s[2])) for s in ('2x3', '2x4', '3x2', '3x4', '4x2', '4x3')]
@units([(f[4:], dict(f=f, n=n)) for f, n in COPIES + MAKES])
def copies(c, f, n):
    v = c.vec('v', n); c.eq(c.call(f, v).dest, v, 'every element')
@unit()
def sized(c):
    v2, v3, v4, s = c.vec('p', 2), c.vec('q', 3), c.vec('r', 4), c.scalar('s')
    c.eq(c.call('glm_vec3', v4).dest, v4[:3], 'vec3(vec4)'); c.eq(c.call('glm_vec4', v3, s).dest, v3 + [s], 'vec4(vec3, last)')
    c.eq(c.call('glm_vec4_copy3', v4).dest, v4[:3], 'copy3'); c.eq(c.call('glm_x_vec4_dup3', v4).dest, v4[:3], 'dup3')
    c.eq(c.call('glm_vec2', v2).dest, v2, 'vec2')
@unit()
def fills(c):
    s = c.scalar('s')
    for n in DIM: c.eq(c.call('glm_vec%d_fill' % n, v=c.vec('v%d' % n, n), val=s).v, [s]*n, 'fill%d' % n)
    for n in (3, 4): c.eq(c.call('glm_vec%d_broadcast' % n, s).d, [s]*n, 'broadcast%d' % n)
@unit()
def constants(c):
    for n in DIM:
        c.eq(c.call('glm_vec%d_zero' % n, v=c.vec('z%d' % n, n)).v, [ZERO]*n, 'zero%d' % n)
        c.eq(c.call('glm_vec%d_one' % n, v=c.vec('o%d' % n, n)).v, [ONE]*n, 'one%d' % n)
def eye(n): return flat(ident(n))
@units([('zero_mat%s' % s, dict(s=s, n=n)) for s, n in (('2', 4), ('3', 9), ('4', 16), ('2x3', 6), ('2x4', 8), ('3x2', 6), ('3x4', 12), ('4x2', 8), ('4x3', 12))])
def zmat(c, s, n):
    a = c.vec('a', n); o = c.call('glm_mat%s_zero' % s, a)
    c.eq(o.mat if hasattr(o, 'mat') else o.m, [ZERO]*n, 'zero')
@units([('identity_%s' % k, dict(k=k)) for k in ('mat2', 'mat3', 'mat4', 'quat')])
def idn(c, k):
    n = 4 if k == 'quat' else int(k[3])**2
    I = [ZERO, ZERO, ZERO, ONE] if k == 'quat' else eye(int(k[3]))
    o = c.call('glm_%s_identity' % k, c.vec('a', n)); r = [v for q, v in o.__dict__.items() if q in ('m', 'mat', 'q')][0]
    c.eq(r, I, 'identity')
@units([('identity_array_%s_%d' % (k, q), dict(k=k, q=q)) for k in ('mat2', 'mat3', 'mat4', 'quat') for q in (0, 1, 2, 3)])
def idarr(c, k, q):
    n = 4 if k == 'quat' else int(k[3])**2
    I = [ZERO, ZERO, ZERO, ONE] if k == 'quat' else eye(int(k[3]))
    a = c.vec('a', 3*n); o = c.call('glm_%s_identity_array' % k, a, q); r = [v for w, v in o.__dict__.items() if w in ('m', 'mat', 'q', 'mats')][0]
    c.eq(r, (I*q + a[q*n:])[:3*n], 'identity in the first count elements, the rest untouched')
CONST = {'vec2_zero': [0]*2, 'vec3_zero': [0]*3, 'vec4_zero': [0]*4, 'vec2_one': [1]*2, 'vec3_one': [1]*3, 'vec4_one': [1]*4, 'vec4_black': [0, 0, 0, 1], 'versor_identity': [0, 0, 0, 1],
         'xup': [1, 0, 0], 'yup': [0, 1, 0], 'zup': [0, 0, 1], 'mat2_zero': [0]*4, 'mat3_zero': [0]*9, 'mat4_zero': [0]*16, 'mat2_identity': None, 'mat3_identity': None, 'mat4_identity': None,
         'mat2x3_zero': [0]*6, 'mat2x4_zero': [0]*8, 'mat3x2_zero': [0]*6, 'mat3x4_zero': [0]*12, 'mat4x2_zero': [0]*8, 'mat4x3_zero': [0]*12}
@units([('const_' + k, dict(k=k)) for k in CONST])
def consts(c, k):
    e = CONST[k] or eye(int(k[3]))
    c.eq(c.call('glm_x_' + k).dest, e, k)
@unit()
def deprecated(c):
    for n in (3, 4):
        v, w = c.vec('v%d' % n, n), c.vec('w%d' % n, n)
        neg = [-e for e in v]
        for k in ('flipsign', 'inv'):
            c.eq(c.call('glm_x_vec%d_%s' % (n, k), v).v, neg, k); c.eq(c.call('glm_x_vec%d_%s_to' % (n, k), v).dest, neg, k + '_to')
        c.eq(c.call('glm_x_vec%d_mulv' % n, v, w).dest, [a*b for a, b in zip(v, w)], 'mulv')
        s = c.scalar('s%d' % n)
        c.eq(c.call('glm_x_vec%d_step_uni' % n, s, v).dest, [where(e < s, ZERO, ONE) for e in v], 'step_uni')
@unit()
def deprecated2(c):
    b = c.vec('b', 4)
    c.eq(c.call('glm_x_aabb2d_size', b).ret, norm([b[2]-b[0], b[3]-b[1]]), 'aabb2d_size')
    m = c.mat('m', 4); c.assume(det(cols(m, 4)).ne(0))
    o = c.call('glm_x_mat4_inv_precise', m)
    c.eq(mm(cols(o.dest, 4), cols(m, 4)), ident(4), 'inv_precise')
@units([('fract%d' % n, dict(n=n)) for n in DIM])
def fract_(c, n):
    v = c.vec('v', n); top = X(D.fconst(0.99999994))
    c.eq(c.call('glm_vec%d_fract' % n, v).dest, [minx(e-fn('floor', e), top) for e in v], 'fractional part, below one')
