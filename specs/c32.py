"""C32 named fields, sizes, alignments, initialisers and constants (bit-precise)"""
import struct
from engine.bits import *
from engine import build as B, dag as D
from engine.runner import unit, units
MODE = 'bits'; STRUCT = True
TARGETS = set(B.CALL_ALIAS.values()) | {'vec3_steps', 'vec4_steps'}
SHIM_NAMES = [n for n in B.API if n.startswith('glms_x_') or n in ('glm_vec2_swizzle', 'glm_vec3_swizzle', 'glm_vec4_swizzle') or n[4:] in TARGETS]
CFGS = ['scalar', 'sse2', 'avx', 'fma', 'unal', 'neon', 'neon32', 'wasm', 'scalar_rhzo', 'sse2_lhno', 'sse2_lhzo']
def cells(c, t): return (c.ivec if t[0] == 'i' else c.vec)('v', B._NE[t])
@units([('%s_%s' % (t, k), dict(t=t, k=k)) for t in B.FIELDS for k in B.FIELDS[t]])
def fields(c, t, k):
    # every named field is the raw element of that name, for reading and for writing
    v = cells(c, t)
    c.eq(c.call('glms_x_rd_%s_%s' % (t, k), v).dest, v, 'read ' + k); c.eq(c.call('glms_x_wr_%s_%s' % (t, k), v).dest, v, 'write ' + k)
@units([('layout_' + t, dict(t=t)) for t in B._NE])
def layout(c, t):
    n = B._NE[t]; al = {}
    for w in ('', 's'):
        c.eq(c.call('glms_x_size_%s%s' % (t, w)).ret, 4*n, 'sizeof %s%s' % (t, w))
        al[w] = c.call('glms_x_align_%s%s' % (t, w)).ret
    free = 'CGLM_ALL_UNALIGNED' in B.CFG[c.cfg].defs
    need = 4
    if t in ('vec4', 'versor', 'mat2') and not free: need = 16
    if t == 'mat4' and not free: need = 32 if c.cfg in ('avx', 'fma') else 16
    for w in ('', 's') if t != 'mat2' else ('',): c.holds(al[w] >= need, 'alignment of %s%s is at least %d' % (t, w, need))
    if free and t not in ('mat4',): c.eq(al[''], 4, 'no extra alignment with CGLM_ALL_UNALIGNED')
IDENT = {'mat2': [0, 3], 'mat3': [0, 4, 8], 'mat4': [0, 5, 10, 15], 'versor': [3]}
def expect(t, k):
    n = B._NE[t]
    if k == 'zero': return [0]*n
    if k == 'one': return [1]*n
    if k == 'black': return [0, 0, 0, 1]
    return [1 if i in IDENT[t] else 0 for i in range(n)]
KINDS = [(t, k) for t in B._NE for k in ('zero', 'one', 'identity', 'black') if 'glms_x_val_%s_%s' % (t, k) in B.API]
@units([('init_%s_%s' % z, dict(t=z[0], k=z[1])) for z in KINDS])
def init(c, t, k):
    e = [x if t[0] == 'i' else F(D.fconst(float(x))) for x in expect(t, k)]
    for f in ('glms_x_%s_%s' % (t, k), 'glms_x_val_%s_%s' % (t, k)): c.eq(c.call(f).dest, e, f)
@unit()
def directions(c):
    for i, k in enumerate('xyz'): c.eq(c.call('glms_x_%sups' % k).dest, [F(D.fconst(float(j == i))) for j in range(3)], k + 'up')
    c.num(c.call('glms_x_forward').dest, [F(D.fconst(x)) for x in (0.0, 0.0, -1.0)], 'forward')
def consts():
    import sympy as S
    e = dict(E=S.E, LOG2E=1/S.log(2), LOG10E=1/S.log(10), LN2=S.log(2), LN10=S.log(10), PI=S.pi, PI_2=S.pi/2, PI_4=S.pi/4, TAU=2*S.pi, TAU_2=S.pi, TAU_4=S.pi/2,
             SQRTTAU=S.sqrt(2*S.pi), SQRT2=S.sqrt(2), SQRT1_2=1/S.sqrt(2))
    e.update({'1_PI': 1/S.pi, '2_PI': 2/S.pi, '1_TAU': 1/(2*S.pi), '2_TAU': 1/S.pi, '2_SQRTPI': 2/S.sqrt(S.pi)})
    return {k: float(S.N(v, 60)) for k, v in e.items()}
def sgn(u): return u - (1 << 32) if u >> 31 else u
@unit()
def numbers(c):
    for k, v in consts().items():
        u = struct.unpack('<Q', struct.pack('<d', v))[0]
        c.eq(c.call('glms_x_k0_' + k).ret, sgn(u & 0xffffffff), k + ' (low word)'); c.eq(c.call('glms_x_k1_' + k).ret, sgn(u >> 32), k + ' (high word)')
        f = sgn(struct.unpack('<I', struct.pack('<f', v))[0])
        if k != 'SQRTTAU': c.eq(c.call('glms_x_kf_' + k).ret, f, k + 'f')
        if k in ('PI', 'PI_2', 'PI_4'): c.eq(c.call('glms_x_kc_' + k).ret, f, 'CGLM_' + k)
@unit()
def corners(c):
    for k, v in B.INDEX.items(): c.eq(c.call('glms_x_i_' + k).ret, v, 'GLM_' + k)
    # the documented defaults, in every configuration (GLM_CUSTOM_CLIPSPACE is the documented way to other corners)
    for k in [k for k in B.INDEX if len(k) == 3 and k not in ('TOP', 'FAR')]:
        e = [-1.0 if k[0] == 'L' else 1.0, -1.0 if k[1] == 'B' else 1.0, -1.0 if k[2] == 'N' else 1.0, 1.0]
        for p in ('GLM', 'GLMS'): c.num(c.call('glms_x_cs_%s_%s' % (p, k)).dest, [F(D.fconst(x)) for x in e], '%s_CSCOORD_%s' % (p, k))
@units([('shuffle%d' % n, dict(n=n)) for n in (2, 3, 4)])
def shuffle(c, n):
    # the last macro argument selects the first component, two bits each
    ps = {2: 'yx', 3: 'zyx', 4: 'zyxw'}[n]; a = [c.iscalar(p) for p in ps]
    r = c.call('glms_x_shuffle%d' % n, *a).ret
    e = I(D.iconst(0, 'i32'))
    for i, p in enumerate(reversed(a)): e = e + I(D.ibin('and', p.n, D.iconst(3, 'i32')))*(4**i)
    c.eq(r, e, 'shuffle mask')
@unit()
def minmax(c):
    a, b, s = [c.iscalar(k) for k in 'abs']
    x = I(D.ibin('and', a.n, s.n)); y = I(D.ibin('or', b.n, s.n))
    c.eq(c.call('glms_x_min', a, b, s).ret, where(x < y, x, y), 'GLM_MIN'); c.eq(c.call('glms_x_max', a, b, s).ret, where(x > y, x, y), 'GLM_MAX')
@units([('apple_%s_%s' % (p, t), dict(p=p, t=t)) for t in ('vec3', 'vec4', 'mat3', 'mat4') for p in ('glm', 'glms')])
def apple(c, p, t):
    # conversions to Apple's simd types keep every element (declared with stand-ins for <simd/simd.h>)
    v = cells(c, t)
    c.eq(c.call('glms_x_apple_%s_%s' % (p, t), v).dest, v, '%s_%s_applesimd' % (p, t))
def same(c, a, b, args):
    x, y = c.call(a, *args), c.call(b, *args)
    for p in B.API[b]['params']:
        if p['kind'] == 'obj': c.eq(getattr(x, p['name']), getattr(y, p['name']), a[7:])
    if B.API[b]['ret']['kind'] != 'void': c.num([x.ret], [y.ret], a[7:])
def args(c, f): return [c.vec(p['name'], p['n']) if p['kind'] == 'obj' else c.scalar(p['name']) for p in B.API[f]['params'] if p['kind'] != 'obj' or p['name'] != 'dest']
@units([('alias_' + n, dict(n=n)) for n in B.CALL_ALIAS])
def alias(c, n):
    f = 'glm_' + B.CALL_ALIAS[n]
    same(c, 'glms_x_call_' + n, f, args(c, f))
@units([('step_uni_' + t, dict(t=t)) for t in ('vec3', 'vec4')])
def step_uni(c, t): same(c, 'glms_x_%s_step_uni' % t, 'glm_%s_steps' % t, args(c, 'glm_%s_steps' % t))
