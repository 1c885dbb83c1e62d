"""From /repo's current sources to IR modules, wrappers and symbolic results."""
import os, re, subprocess, json, tempfile, hashlib, shutil, atexit
from . import ir, symex, dag as D

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = REPO + '/include'
CLANG = 'clang'
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='verif-')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp

API = json.load(open(VERIF + '/api.json'))

STUB = ['-ffreestanding', '-fno-builtin', '-nostdlibinc', '-isystem', VERIF + '/stubs']
NOSSE = ['-U__SSE__', '-U__SSE2__', '-U__SSE_MATH__', '-U__SSE2_MATH__', '-DCGLM_SIMD_NONE_FOR_VERIF']
class Config:
    def __init__(self, name, flags=(), defs=(), target=None, ptrsize=8, native=True, desc=''):
        self.name = name; self.flags = list(flags); self.defs = list(defs); self.target = target
        self.ptrsize = ptrsize; self.native = native; self.desc = desc
    def clang(self):
        a = ['-O0', '-Xclang', '-disable-O0-optnone', '-std=gnu11', '-w', '-ffp-contract=off', '-fno-math-errno',
             '-I' + INC] + self.flags + ['-D' + d for d in self.defs]
        if self.target: a += ['--target=' + self.target] + STUB
        return a
    def gcc(self):
        return ['-std=gnu11', '-w', '-O2', '-ffp-contract=off', '-fPIC', '-shared', '-I' + INC] + self.flags + ['-D' + d for d in self.defs]
CL = {'': [], '_rhzo': ['CGLM_FORCE_DEPTH_ZERO_TO_ONE'], '_lhno': ['CGLM_FORCE_LEFT_HANDED'],
      '_lhzo': ['CGLM_FORCE_LEFT_HANDED', 'CGLM_FORCE_DEPTH_ZERO_TO_ONE']}
CFG = {}
def _add(c): CFG[c.name] = c
for sfx, defs in CL.items():
    _add(Config('scalar' + sfx, NOSSE, defs, desc='no SIMD'))
    _add(Config('sse2' + sfx, [], defs, desc='baseline x86-64'))
_add(Config('sse3', ['-msse3'], ['CGLM_SSE3_DOT']))
_add(Config('sse4', ['-msse4.1'], ['CGLM_SSE4_DOT']))
_add(Config('avx', ['-mavx']))
_add(Config('fma', ['-mavx2', '-mfma']))
_add(Config('unal', [], ['CGLM_ALL_UNALIGNED']))
_add(Config('unal_avx', ['-mavx2', '-mfma'], ['CGLM_ALL_UNALIGNED']))
_add(Config('unal_scalar', NOSSE, ['CGLM_ALL_UNALIGNED']))
_add(Config('neon', target='aarch64-linux-gnu', native=False))
_add(Config('neon32', ['-mfpu=neon', '-mfloat-abi=hard'], target='armv7-linux-gnueabihf', ptrsize=4, native=False))
_add(Config('wasm', ['-msimd128'], target='wasm32-unknown-unknown', ptrsize=4, native=False))

def decl_param(p):
    t = p['type']
    if p['kind'] == 'scalar': return '%s %s' % (t, p['name'])
    if p.get('byval'): return '%s *%s' % (t, p['name'])
    return '%s%s %s%s%s' % ('const ' if p['const'] else '', t, '*' * p['ptr'], p['name'], p['arr'])

# ---- shims: header macros with observable values, presented as functions  name -> (macro, params, body, struct header needed)
SHIMS = {}
def _obj(name, t, n, ty): return dict(arr='', byval=False, const=False, elem=t, kind='obj', n=n, name=name, ptr=0, ty=ty, type=t)
def _const(nm, macro, t, n, struct=False):
    ty = 'i32' if t.startswith('ivec') else 'f32'
    API[nm] = dict(header='shim', params=[_obj('dest', t, n, ty)], ret=dict(kind='void', type='void'))
    base = 'int' if ty == 'i32' else 'float'
    SHIMS[nm] = (macro, 'static void %s(%s dest) { const %s%s v = %s; __builtin_memcpy(dest, &v, %d); }' % (nm, t, t, 's' if struct else '', macro, 4*n), struct)
    FIXED[nm] = n
FIXED = {}
_NE = {'vec2': 2, 'vec3': 3, 'vec4': 4, 'versor': 4, 'ivec2': 2, 'ivec3': 3, 'ivec4': 4, 'mat2': 4, 'mat3': 9, 'mat4': 16, 'mat2x3': 6, 'mat2x4': 8, 'mat3x2': 6, 'mat3x4': 12, 'mat4x2': 8, 'mat4x3': 12}
for _t, _n in _NE.items():
    for _k in ('ZERO', 'ONE', 'IDENTITY', 'BLACK'):
        if _k == 'ONE' and _t.startswith('mat') or _k == 'BLACK' and _t != 'vec4' or _k == 'IDENTITY' and _t not in ('mat2', 'mat3', 'mat4', 'versor') or _t == 'versor' and _k != 'IDENTITY': continue
        _T = 'QUAT' if _t == 'versor' else _t.upper()
        _const('glm_x_%s_%s' % (_t, _k.lower()), 'GLM_%s_%s_INIT' % (_T, _k), _t, _n)
        _const('glms_x_%s_%s' % (_t, _k.lower()), 'GLMS_%s_%s_INIT' % (_T, _k), _t, _n, True)
for _k in 'XYZ':
    API['glm_x_%sup' % _k.lower()] = dict(header='shim', params=[_obj('dest', 'vec3', 3, 'f32')], ret=dict(kind='void', type='void'))
    SHIMS['glm_x_%sup' % _k.lower()] = ('GLM_%sUP' % _k, 'static void glm_x_%sup(vec3 dest) { const float *v = GLM_%sUP; dest[0] = v[0]; dest[1] = v[1]; dest[2] = v[2]; }' % (_k.lower(), _k), False)
_const('glm_x_bezier_mat', 'GLM_BEZIER_MAT_INIT', 'mat4', 16); _const('glm_x_hermite_mat', 'GLM_HERMITE_MAT_INIT', 'mat4', 16)
for _m in ('XXX', 'YYY', 'ZZZ', 'ZYX'):
    API['glm_x_swz_' + _m.lower()] = dict(header='shim', params=[_obj('v', 'vec3', 3, 'f32'), _obj('dest', 'vec3', 3, 'f32')], ret=dict(kind='void', type='void'))
    SHIMS['glm_x_swz_' + _m.lower()] = ('GLM_' + _m, 'static void glm_x_swz_%s(vec3 v, vec3 dest) { glm_vec3_swizzle(v, GLM_%s, dest); }' % (_m.lower(), _m), False)
for _m in ('XXXX', 'YYYY', 'ZZZZ', 'WWWW', 'WZYX'):
    API['glm_x_swz_' + _m.lower()] = dict(header='shim', params=[_obj('v', 'vec4', 4, 'f32'), _obj('dest', 'vec4', 4, 'f32')], ret=dict(kind='void', type='void'))
    SHIMS['glm_x_swz_' + _m.lower()] = ('GLM_' + _m, 'static void glm_x_swz_%s(vec4 v, vec4 dest) { glm_vec4_swizzle(v, GLM_%s, dest); }' % (_m.lower(), _m), False)
# deprecated spellings that are macros around a function of the same shape
for _n, _f in {'vec3_mulv': 'vec3_mul', 'vec4_mulv': 'vec4_mul', 'mat4_inv_precise': 'mat4_inv', 'vec3_dup': 'vec3_copy', 'vec4_dup': 'vec4_copy', 'vec4_dup3': 'vec4_copy3', 'mat3_dup': 'mat3_copy', 'mat4_dup': 'mat4_copy',
               'mat4_udup': 'mat4_ucopy', 'vec3_flipsign': 'vec3_negate', 'vec3_flipsign_to': 'vec3_negate_to', 'vec3_inv': 'vec3_negate', 'vec3_inv_to': 'vec3_negate_to', 'vec4_flipsign': 'vec4_negate',
               'vec4_flipsign_to': 'vec4_negate_to', 'vec4_inv': 'vec4_negate', 'vec4_inv_to': 'vec4_negate_to', 'vec3_step_uni': 'vec3_steps', 'vec4_step_uni': 'vec4_steps', 'aabb2d_size': 'aabb2d_diag'}.items():
    _g = API['glm_' + _f]; _q = 'glm_x_' + _n
    API[_q] = dict(_g, header='shim')
    _ar = ', '.join(p['name'] for p in _g['params'])
    SHIMS[_q] = ('glm_' + _n, None, False)

for _z in ('no', 'zo'):
    _q = 'glm_x_unproject_' + _z
    API[_q] = dict(API['glm_unproject'], header='shim')
    SHIMS[_q] = ('glm_unproject', 'static void %s(vec3 pos, mat4 m, vec4 vp, vec3 dest) { CGLM_ALIGN_MAT mat4 inv; glm_mat4_inv(m, inv); glm_unprojecti_%s(pos, inv, vp, dest); }' % (_q, _z), False)

# ---- field names of the struct types, read one by one into an array; sizes, alignments, numeric constants (C32)
def _sets(t):
    v = {'vec2': ('xy', 'ri', 'uv', 'st'), 'ivec2': ('xy', 'ri', 'uv', 'st'), 'vec3': ('xyz', 'rgb'), 'ivec3': ('xyz', 'rgb'), 'vec4': ('xyzw', 'rgba'), 'ivec4': ('xyzw', 'rgba'), 'versor': ('xyzw',)}
    if t in v:
        d = {k: list(k) for k in v[t]}
        if t == 'versor': d['imag_real'] = ['imag.x', 'imag.y', 'imag.z', 'real']; d['imag_raw'] = ['imag.raw[0]', 'imag.raw[1]', 'imag.raw[2]', 'real']
        d['raw'] = ['raw[%d]' % i for i in range(_NE[t])]
        return d
    a = t[3:].split('x'); C, Rw = int(a[0]), int(a[-1])
    g = lambda f: [f % (i, j) for i in range(C) for j in range(Rw)]
    return {'names': g('m%d%d'), 'col': g('col[%d].raw[%d]'), 'raw': g('raw[%d][%d]'), 'col_fields': ['col[%d].%s' % (i, 'xyzw'[j]) for i in range(C) for j in range(Rw)]}
FIELDS = {t: _sets(t) for t in _NE}
def sname(t): return t + 's'
_C32 = []
def _shim(n, params, ret, body): API[n] = dict(header='shim', params=params, ret=ret); SHIMS[n] = (None, body, True); _C32.append(n)
_VOID = dict(kind='void', type='void'); _INT = dict(kind='scalar', ty='i32', type='int')
def _int(n): return dict(arr='', byval=False, const=False, kind='scalar', name=n, ptr=0, ty='i32', type='int')
for _t, _n in _NE.items():
    _ty = 'i32' if _t[0] == 'i' else 'f32'; _e = 'int' if _ty == 'i32' else 'float'
    for _k, _fs in FIELDS[_t].items():
        _q = 'glms_x_rd_%s_%s' % (_t, _k)
        _shim(_q, [_obj('v', _t, _n, _ty), _obj('dest', _t, _n, _ty)], _VOID, 'static void %s(%s v, %s dest) { %s t; %s r[%d]; __builtin_memcpy(&t, v, %d); %s __builtin_memcpy(dest, r, %d); }' % (_q, _t, _t, sname(_t), _e, _n, 4*_n, ' '.join('r[%d] = t.%s;' % z for z in enumerate(_fs)), 4*_n))
        _q = 'glms_x_wr_%s_%s' % (_t, _k)
        _shim(_q, [_obj('v', _t, _n, _ty), _obj('dest', _t, _n, _ty)], _VOID, 'static void %s(%s v, %s dest) { %s t; %s r[%d]; __builtin_memcpy(r, v, %d); %s __builtin_memcpy(dest, &t, %d); }' % (_q, _t, _t, sname(_t), _e, _n, 4*_n, ' '.join('t.%s = r[%d];' % (f, i) for i, f in enumerate(_fs)), 4*_n))
    for _w, _x in (('', _t), ('s', sname(_t))):
        _shim('glms_x_size_%s%s' % (_t, _w), [], _INT, 'static int glms_x_size_%s%s(void) { return (int)sizeof(%s); }' % (_t, _w, _x))
        _shim('glms_x_align_%s%s' % (_t, _w), [], _INT, 'static int glms_x_align_%s%s(void) { return (int)__alignof__(%s); }' % (_t, _w, _x))
CONSTS = ['E', 'LOG2E', 'LOG10E', 'LN2', 'LN10', 'PI', 'PI_2', 'PI_4', '1_PI', '2_PI', 'TAU', 'TAU_2', 'TAU_4', '1_TAU', '2_TAU', '2_SQRTPI', 'SQRTTAU', 'SQRT2', 'SQRT1_2']
for _k in CONSTS:
    for _h in (0, 1): _shim('glms_x_k%d_%s' % (_h, _k), [], _INT, 'static int glms_x_k%d_%s(void) { double d = GLM_%s; unsigned long long u; __builtin_memcpy(&u, &d, 8); return (int)(unsigned)(u >> %d); }' % (_h, _k, _k, 32*_h))
    if _k != 'SQRTTAU': _shim('glms_x_kf_%s' % _k, [], _INT, 'static int glms_x_kf_%s(void) { float d = GLM_%sf; unsigned u; __builtin_memcpy(&u, &d, 4); return (int)u; }' % (_k, _k))
for _k in ('', '_2', '_4'): _shim('glms_x_kc_PI%s' % _k, [], _INT, 'static int glms_x_kc_PI%s(void) { float d = CGLM_PI%s; unsigned u; __builtin_memcpy(&u, &d, 4); return (int)u; }' % (_k, _k))
INDEX = dict(LBN=0, LTN=1, RTN=2, RBN=3, LBF=4, LTF=5, RTF=6, RBF=7, LEFT=0, RIGHT=1, BOTTOM=2, TOP=3, NEAR=4, FAR=5)
for _k in INDEX: _shim('glms_x_i_' + _k, [], _INT, 'static int glms_x_i_%s(void) { return GLM_%s; }' % (_k, _k))
for _k in [k for k in INDEX if len(k) == 3 and k != 'TOP' and k != 'FAR']:
    for _p in ('GLM', 'GLMS'): _shim('glms_x_cs_%s_%s' % (_p, _k), [_obj('dest', 'vec4', 4, 'f32')], _VOID, 'static void glms_x_cs_%s_%s(vec4 dest) { float v[4] = %s_CSCOORD_%s; __builtin_memcpy(dest, v, 16); }' % (_p, _k, _p, _k))
for _k in 'XYZ': _shim('glms_x_%sups' % _k.lower(), [_obj('dest', 'vec3', 3, 'f32')], _VOID, 'static void glms_x_%sups(vec3 dest) { vec3s v = GLMS_%sUP; __builtin_memcpy(dest, &v, 12); }' % (_k.lower(), _k))
_shim('glms_x_forward', [_obj('dest', 'vec3', 3, 'f32')], _VOID, 'static void glms_x_forward(vec3 dest) { const float *v = GLM_FORWARD; dest[0] = v[0]; dest[1] = v[1]; dest[2] = v[2]; }')
for _t, _n in _NE.items():
    for _k in ('ZERO', 'ONE', 'IDENTITY', 'BLACK'):
        _a = 'glm_x_%s_%s' % (_t, _k.lower())
        if _a not in API: continue
        _T = 'QUAT' if _t == 'versor' else _t.upper(); _e = 'int' if _t[0] == 'i' else 'float'
        _shim('glms_x_val_%s_%s' % (_t, _k.lower()), [_obj('dest', _t, _n, 'i32' if _t[0] == 'i' else 'f32')], _VOID, 'static void glms_x_val_%s_%s(%s dest) { %s v = GLMS_%s_%s; __builtin_memcpy(dest, &v, %d); }' % (_t, _k.lower(), _t, sname(_t), _T, _k, 4*_n))
for _k in (2, 3, 4):
    _ps = ['zyxw'[i] for i in range(4)] if _k == 4 else ['z', 'y', 'x'] if _k == 3 else ['y', 'x']
    _shim('glms_x_shuffle%d' % _k, [_int(p) for p in _ps], _INT, 'static int glms_x_shuffle%d(%s) { return GLM_SHUFFLE%d(%s); }' % (_k, ', '.join('int ' + p for p in _ps), _k, ', '.join('%s & 3' % p for p in _ps)))
# Apple's vector types are not available here: stand-ins with the same element access
_APPLE = """#ifndef VERIF_APPLE
#define VERIF_APPLE
typedef float simd_float4 __attribute__((vector_size(16))); typedef float simd_float3 __attribute__((vector_size(16)));
typedef struct { simd_float4 columns[4]; } simd_float4x4; typedef struct { simd_float3 columns[3]; } simd_float3x3;
#undef cglm_applesimd_h
#ifndef __APPLE__
#define __APPLE__ 1
#define VERIF_UNDEF_APPLE
#endif
#define SIMD_COMPILER_HAS_REQUIRED_FEATURES 1
#define SIMD_BASE 1
#define SIMD_TYPES 1
#define SIMD_VECTOR_TYPES 1
#include <cglm/applesimd.h>
#ifdef VERIF_UNDEF_APPLE
#undef __APPLE__
#endif
#endif
"""
for _t, _n, _m in (('vec3', 3, 0), ('vec4', 4, 0), ('mat3', 3, 1), ('mat4', 4, 1)):
    for _p in ('glm', 'glms'):
        _shim('glms_x_apple_%s_%s' % (_p, _t), [dict(_obj('v', _t, _n*(_n if _m else 1), 'f32'), const=False), _obj('dest', _t, _n*(_n if _m else 1), 'f32')], _VOID, _APPLE +
              'static void glms_x_apple_%s_%s(%s v, %s dest) { %s simd_float%d%s r = %s; ' % (_p, _t, _t, _t, '%ss q; __builtin_memcpy(&q, v, %d);' % (_t, 4*_n*(_n if _m else 1)) if _p == 'glms' else '',
              _n, 'x%d' % _n if _m else '', '%s_%s_applesimd(%s)' % (_p, _t, 'q' if _p == 'glms' else 'v')) +
              ('for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) dest[i][j] = r.columns[i][j]; }' % (_n, _n) if _m else 'for (int i = 0; i < %d; i++) dest[i] = r[i]; }' % _n))
# ---- the SIMD helper layer (glmm_*), one shim per helper: lanes of the result, or a scalar  name -> (inputs, where available)
SIMD = {}
_X, _A, _W = 'defined(CGLM_SIMD_x86)', 'defined(CGLM_NEON_FP)', 'defined(CGLM_SIMD_WASM)'
def _simd(n, k, ret, where, expr, pre='', wide=False):
    """k vector inputs a, b, c; expr over them (glmm_128), result stored (ret 'v') or returned (ret 's')"""
    q = 'glms_x_v_' + n; SIMD[n] = (k, ret, wide)
    T, N, R = ('mat4', 16, '__m256') if wide else ('vec4', 4, 'glmm_128')
    w = '256' if wide else ''; x = '[0]' if wide else ''
    ps = [dict(_obj(p, T, N, 'f32'), const=False) for p in 'abc'[:k]]
    if ret == 'v': ps.append(_obj('dest', T, N, 'f32'))
    body = ''.join('%s %s_ = glmm_load%s(%s%s); ' % (R, p, w, p, x) for p in 'abc'[:k])
    body += 'glmm_store%s(dest%s, %s);' % (w, x, expr) if ret == 'v' else 'return %s;' % expr
    _shim(q, ps, _VOID if ret == 'v' else dict(kind='scalar', ty='f32', type='float'), '#if %s\nstatic %s %s(%s) { %s%s }\n#endif' % (where, 'void' if ret == 'v' else 'float', q, ', '.join(decl_param(p) for p in ps), pre, body))
_ANY = '%s || %s || %s' % (_X, _A, _W)
for _n in ('min', 'max', 'vdot', 'div'): _simd(_n, 2, 'v', _ANY, 'glmm_%s(a_, b_)' % _n)
for _n in ('abs', 'vhadd', 'splat_x', 'splat_y', 'splat_z', 'splat_w'): _simd(_n, 1, 'v', _ANY, 'glmm_%s(a_)' % _n)
for _n in ('fmadd', 'fnmadd', 'fmsub', 'fnmsub'):
    _simd(_n, 3, 'v', _ANY, 'glmm_%s(a_, b_, c_)' % _n)
    _simd('256' + _n, 3, 'v', _X + ' && defined(__AVX__)', 'glmm256_%s(a_, b_, c_)' % _n, wide=True)
for _n in ('hadd', 'hmin', 'hmax', 'norm', 'norm2', 'norm_one', 'norm_inf'): _simd(_n, 1, 's', _ANY, 'glmm_%s(a_)' % _n)
_simd('dot', 2, 's', _ANY, 'glmm_dot(a_, b_)')
for _n in ('vhadds', 'vhmin', 'vhmax'): _simd(_n, 1, 'v', '%s || %s' % (_X, _W), 'glmm_%s(a_)' % _n)
_simd('vdots', 2, 'v', '%s || %s' % (_X, _W), 'glmm_vdots(a_, b_)')
_simd('load3', 1, 'v', '%s || %s' % (_X, _W), 'glmm_load3(a)')
_simd('neg', 1, 'v', _X, '_mm_xor_ps(a_, glmm_float32x4_SIGNMASK_NEG)'); _simd('neg_w', 1, 'v', _W, 'wasm_v128_xor(a_, glmm_float32x4_SIGNMASK_NEG)'); _simd('256neg', 1, 'v', _X + ' && defined(__AVX__)', '_mm256_xor_ps(a_, glmm_float32x8_SIGNMASK_NEG)', wide=True)
_simd('xor', 2, 'v', _A, 'glmm_xor(a_, b_)'); _simd('swplane', 1, 'v', _A, 'glmm_swplane(a_)')
for _n in ('ll', 'hl', 'lh', 'hh'): _simd('combine_' + _n, 2, 'v', _A, 'glmm_combine_%s(a_, b_)' % _n)
SHUF = [(z, y, x, w) for z, y, x, w in ((3, 2, 1, 0), (0, 1, 2, 3), (2, 0, 3, 1), (1, 3, 0, 2), (0, 0, 3, 3), (3, 1, 2, 0))]
for _s in SHUF: _simd('shuff1_%d%d%d%d' % _s, 1, 'v', '%s || %s' % (_X, _W), 'glmm_shuff1(a_, %d, %d, %d, %d)' % _s)
_simd('set1', 1, 'v', _ANY, 'glmm_set1(f_)', 'float f_ = a[1]; '); _simd('set1_ptr', 1, 'v', _ANY, 'glmm_set1_ptr(f_)', 'float *f_ = &a[2]; '); _simd('set1_rval', 1, 'v', _ANY, 'glmm_set1_rval(f_)', 'float f_ = a[3]; ')
_simd('256copy', 1, 'v', _X + ' && defined(__AVX__)', 'a_', wide=True)
_shim('glms_x_v_store3', [dict(_obj('a', 'vec4', 4, 'f32'), const=False), _obj('v', 'vec3', 3, 'f32')], _VOID, '#if %s || %s\nstatic void glms_x_v_store3(vec4 a, vec3 v) { glmm_store3(v, glmm_load(a)); }\n#endif' % (_X, _W))
# spellings kept for old code: macros of the call headers (whose targets C01 compares with the inline functions) and of the struct headers
CALL_ALIAS = {'mat4_udup': 'mat4_ucopy', 'mat4_dup': 'mat4_copy', 'vec_dup': 'vec3_copy', 'vec3_flipsign': 'vec3_negate', 'vec3_flipsign_to': 'vec3_negate_to', 'vec3_inv': 'vec3_negate', 'vec3_inv_to': 'vec3_negate_to',
              'vec3_step_uni': 'vec3_steps', 'aabb2d_size': 'aabb2d_diag', 'vec4_dup3': 'vec4_copy3', 'vec4_dup': 'vec4_copy', 'vec4_flipsign': 'vec4_negate', 'vec4_flipsign_to': 'vec4_negate_to',
              'vec4_inv': 'vec4_negate', 'vec4_inv_to': 'vec4_negate_to', 'vec4_step_uni': 'vec4_steps', 'mat3_dup': 'mat3_copy'}
_CALL = '#ifndef VERIF_CALL\n#define VERIF_CALL\n#include <cglm/call.h>\n' + ''.join('#define glmc_%s glm_%s\n' % (_k, _k) for _k in sorted(set(CALL_ALIAS.values()))) + '#endif\n'
for _n, _f in CALL_ALIAS.items():
    _g = API['glm_' + _f]; _q = 'glms_x_call_' + _n
    _shim(_q, _g['params'], _g['ret'], _CALL + 'static %s %s(%s) { %sglmc_%s(%s); }' % (_g['ret']['type'], _q, ', '.join(decl_param(p) for p in _g['params']), '' if _g['ret']['kind'] == 'void' else 'return ', _n, ', '.join(p['name'] for p in _g['params'])))
for _t, _n in (('vec3', 3), ('vec4', 4)):
    _shim('glms_x_%s_step_uni' % _t, API['glm_%s_steps' % _t]['params'], _VOID, 'static void glms_x_%s_step_uni(%s) { %ss v, r; __builtin_memcpy(&v, %s, %d); r = glms_%s_step_uni(%s, v); __builtin_memcpy(%s, &r, %d); }' % (
        _t, ', '.join(decl_param(p) for p in API['glm_%s_steps' % _t]['params']), _t, API['glm_%s_steps' % _t]['params'][1]['name'], 4*_n, _t, API['glm_%s_steps' % _t]['params'][0]['name'], API['glm_%s_steps' % _t]['params'][2]['name'], 4*_n))
for _k in ('MIN', 'MAX'): _shim('glms_x_%s' % _k.lower(), [_int('a'), _int('b'), _int('s')], _INT, 'static int glms_x_%s(int a, int b, int s) { return GLM_%s(a & s, b | s); }' % (_k.lower(), _k))

_src_names = None
def source_names():
    """identifiers followed by '(' in the current headers and sources"""
    global _src_names
    if _src_names is None:
        s = set()
        for base in (INC + '/cglm', REPO + '/src'):
            for root, _, fs in os.walk(base):
                for f in fs:
                    if f.endswith(('.h', '.c')):
                        t = open(os.path.join(root, f), errors='replace').read()
                        s.update(re.findall(r'\b(glm[sc]?_\w+)\s*\(', t))
                        # struct api with parenthesised names: glms_vec3_(add)(
                        for a, b in re.findall(r'\bglms_(\w*)\((\w+)\)\s*\(', t): s.add('glms_' + a + b)
        t = ''
        for root, _, fs in os.walk(INC + '/cglm'):
            for f in fs:
                if f.endswith('.h'): t += open(os.path.join(root, f), errors='replace').read()
        defs = set(re.findall(r'#\s*define\s+(\w+)', t))
        for n, sh in SHIMS.items():
            if sh[0] is None or sh[0] in defs: s.add(n)
        _src_names = s
    return _src_names

def shim_text(n):
    macro, body, struct = SHIMS[n]
    if body: return body
    f = API[n]; r = f['ret']
    return 'static %s %s(%s) { %s%s(%s); }' % ('void' if r['kind'] == 'void' else rtype(r), n, ', '.join(decl_param(p) for p in f['params']), '' if r['kind'] == 'void' else 'return ', macro, ', '.join(p['name'] for p in f['params']))

def rtype(r):
    return {'_Bool': 'bool'}.get(r['type'], r['type'])

def wrapper(n, f):
    ps = [decl_param(p) for p in f['params']]
    args = ', '.join(('*' if p.get('byval') else '') + p['name'] for p in f['params'])
    r = f['ret']
    if r['kind'] == 'struct':
        return 'void w_%s(%s) { *ret__ = %s(%s); }' % (n, ', '.join(ps + ['%s *ret__' % r['type']]), n, args)
    if r['kind'] == 'void':
        return 'void w_%s(%s) { %s(%s); }' % (n, ', '.join(ps) or 'void', n, args)
    return '%s w_%s(%s) { return %s(%s); }' % (rtype(r), n, ', '.join(ps) or 'void', n, args)

ATYPES = ['vec2', 'vec3', 'vec4', 'versor', 'mat2', 'mat3', 'mat4', 'mat2x3', 'mat2x4', 'mat3x2', 'mat3x4', 'mat4x2', 'mat4x3', 'ivec2', 'ivec3', 'ivec4']
STYPES = ['vec2s', 'vec3s', 'vec4s', 'versors', 'mat2s', 'mat3s', 'mat4s', 'mat2x3s', 'mat2x4s', 'mat3x2s', 'mat3x4s', 'mat4x2s', 'mat4x3s', 'ivec2s', 'ivec3s', 'ivec4s']

class BuildError(Exception): pass
EXTRA = ['struct/aabb2d.h', 'struct/handed/euler_to_quat_lh.h', 'struct/handed/euler_to_quat_rh.h']

def wrap_source(names, struct=False, extra='', all_clip=True):
    s = '#include <string.h>\n#include <stdlib.h>\n'
    if all_clip: s += '#define CGLM_CLIPSPACE_INCLUDE_ALL\n'
    s += '#include <cglm/cglm.h>\n'
    if struct:
        s += '#include <cglm/struct.h>\n'
        # headers of the struct API that struct.h does not include
        for h in EXTRA: s += '#if __has_include(<cglm/%s>) && !defined(VERIF_NO_EXTRA)\n#include <cglm/%s>\n#endif\n' % (h, h)
    s += '#include <cglm/handed/euler_to_quat_lh.h>\n#include <cglm/handed/euler_to_quat_rh.h>\n'
    for t in ATYPES + (STYPES if struct else []):
        s += 'const int al__%s = __alignof__(%s); const int sz__%s = sizeof(%s);\n' % (t, t, t, t)
    names = [n for n in names if struct or not (n in SHIMS and SHIMS[n][2])]
    s += '\n'.join(shim_text(n) for n in names if n in SHIMS) + '\n'
    s += '\n'.join(wrapper(n, API[n]) for n in names) + '\n' + extra
    return s

def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def compile_ll(cfg, src, tag):
    d = tmpdir()
    c = '%s/%s_%s.c' % (d, tag, cfg.name); o = c[:-2] + '.ll'
    open(c, 'w').write(src)
    r = run([CLANG] + cfg.clang() + ['-ferror-limit=0', '-S', '-emit-llvm', c, '-o', o])
    if r.returncode: raise BuildError(r.stderr[:400000])
    t = open(o).read(); os.unlink(o)
    return ir.Module(t, cfg.ptrsize)

class Mod:
    """IR module with type information"""
    def __init__(self, cfg, m, names):
        self.cfg = cfg; self.m = m; self.names = set(names); self.al = {}; self.szs = {}
        for t in ATYPES + STYPES:
            if 'al__' + t in m.globals:
                self.al[t] = m.global_('al__' + t)[1][1]; self.szs[t] = m.global_('sz__' + t)[1][1]

def load(cfgname, names, struct=False, extra='', tag='w'):
    """module with wrappers for the given API names (those that still exist)"""
    cfg = CFG[cfgname]
    have = source_names()
    ns = [n for n in names if n in have and n in API]
    try:
        m = compile_ll(cfg, wrap_source(ns, struct, extra), tag)
    except BuildError as e:
        if struct and any(h in str(e) for h in EXTRA):
            # a struct header that does not compile on its own: do without it
            ns = [n for n in ns if API[n]['header'] not in EXTRA]
            m = compile_ll(cfg, '#define VERIF_NO_EXTRA 1\n' + wrap_source(ns, struct, extra), tag)
            return Mod(cfg, m, ns)
        # drop the functions the compiler complains about (e.g. not available in this configuration), once
        bad = set(re.findall(r"call to undeclared function '(\w+)'", str(e))) | set(re.findall(r"undeclared identifier '(\w+)'", str(e)))
        err = str(e)
        ok = []
        if not bad:
            raise
        ns = [n for n in ns if n not in bad and not (n in SHIMS and SHIMS[n][1] and any(re.search(r'\b%s\b' % b, SHIMS[n][1]) for b in bad))]
        m = compile_ll(cfg, wrap_source(ns, struct, extra), tag)
    return Mod(cfg, m, ns)

def call_sources():
    out = []
    for root, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.c'): out.append(os.path.join(root, f))
    return sorted(out)

def load_call(cfgname):
    """linked IR of the compiled API (src/*.c)"""
    cfg = CFG[cfgname]; d = tmpdir() + '/call_' + cfg.name
    os.makedirs(d, exist_ok=True)
    lls = []; procs = []
    for i, s in enumerate(call_sources()):
        o = '%s/%d.ll' % (d, i); lls.append(o)
        procs.append((s, subprocess.Popen([CLANG] + cfg.clang() + ['-I' + os.path.dirname(s), '-I' + REPO + '/src', '-S', '-emit-llvm', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        if len(procs) >= 12:
            for q, p in procs:
                if p.wait(): raise BuildError(q + p.stderr.read()[:2000])
            procs = []
    for q, p in procs:
        if p.wait(): raise BuildError(q + p.stderr.read()[:2000])
    mods = []
    owner = {}
    for o in lls:
        m = ir.Module(open(o).read(), cfg.ptrsize); mods.append(m)
        for n in m.ftext: owner[n] = m
    shutil.rmtree(d, ignore_errors=True)
    return owner

# ---------------------------------------------------------------- running a function symbolically
class Res:
    """result of a symbolic run"""
    pass

def objalign(mod, p):
    e = p['elem']
    t = p['type']
    if p['ptr'] and e in ('float', 'int'): return 4
    if p.get('elem') in ('float', 'int'): return 4
    if t in mod.al: return mod.al[t]
    return mod.al.get(e, 4)

def cellname(p, i): return '%s[%d]' % (p, i)

def symrun(mod, name, consts=None, alias=None, init=None, irmod=None, fname=None, loop_bound=40, max_steps=400000, sizes=None, outvars=True, record=False):
    """Execute (wrapper of) API function `name` on symbolic arguments.
    consts: param -> concrete int for scalar ints; alias: dict param -> other param sharing the same object;
    init: dict (param,index) -> Node to override initial cells."""
    f = API[name]
    m = irmod or mod.m
    ex = symex.Exec(m, loop_bound=loop_bound, max_steps=max_steps); ex.record = record
    st = symex.State(); args = []; objs = {}; inputs = {}
    consts = consts or {}; alias = alias or {}; init = init or {}
    params = list(f['params'])
    if f['ret']['kind'] == 'struct':
        params = params + [dict(name='ret__', kind='obj', elem=f['ret']['elem'], n=f['ret']['n'], ty=f['ret']['ty'], type=f['ret']['type'], ptr=0, arr='', const=False)]
    for p in params:
        nm = p['name']
        if p['kind'] == 'scalar':
            ty = p['ty']
            if ty == 'size': ty = 'i64' if m.ptrsize == 8 else 'i32'
            if nm in consts: v = D.iconst(consts[nm], ty)
            elif (nm, 0) in init: v = init[(nm, 0)]
            else: v = D.var(nm, ty)
            inputs[nm] = [v]; args.append(v); continue
        if nm in alias:
            args.append(symex.ptr(objs[alias[nm]])); continue
        n = p['n']
        if sizes and nm in sizes: n = sizes[nm]
        if n == -1:
            # array of pointers to matrices (mulN)
            k = consts.get('len', 3); es = 16
            arr = symex.Obj(nm, k * m.ptrsize, 8, 'param')
            inputs[nm] = []
            for j in range(k):
                o = symex.Obj('%s%d' % (nm, j), 64, mod.al.get('mat4', 16), 'param'); objs['%s%d' % (nm, j)] = o
                cells = [D.var(cellname('%s%d' % (nm, j), i)) for i in range(es)]
                for i in range(es): ex.raw_store(st, o, 4*i, 4, cells[i])
                inputs['%s%d' % (nm, j)] = cells
                ex.raw_store(st, arr, j * m.ptrsize, m.ptrsize, symex.ptr(o))
            objs[nm] = arr; args.append(symex.ptr(arr)); continue
        o = symex.Obj(nm, 4*n, objalign(mod, p), 'param'); objs[nm] = o
        cells = []
        for i in range(n):
            v = init.get((nm, i))
            if v is None: v = D.var(cellname(nm, i), p['ty'])
            cells.append(v); ex.raw_store(st, o, 4*i, 4, v)
        inputs[nm] = cells
        args.append(symex.ptr(o))
    ex.written = set(); ex.readset = set()
    s2, r = ex.call(fname or ('w_' + name), st, args)
    R = Res(); R.name = name; R.ex = ex; R.events = ex.events; R.inputs = inputs; R.alias = alias
    R.ret = r; R.out = {}; R.dead = s2 is None
    R.written = ex.written; R.readset = ex.readset; R.steps = ex.steps; R.forks = ex.forks; R.accesses = ex.accesses
    R.objs = objs; R.pc = s2.pc if s2 is not None else D.FALSE
    if s2 is not None:
        for nm, o in objs.items():
            if nm in inputs and inputs[nm]:
                ty = inputs[nm][0].ty
                ex2r = set(ex.readset)
                R.out[nm] = [ex.conv(ex.raw_load(s2, o, 4*i, 4), ('f', 32) if ty == 'f32' else ('i', 32)) for i in range(len(inputs[nm]))]
                ex.readset.clear(); ex.readset.update(ex2r)
        for a, b in alias.items(): R.out[a] = R.out[b]
        if isinstance(r, D.Node): R.retnode = r
        else: R.retnode = None
    return R
