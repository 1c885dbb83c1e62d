"""Models of LLVM/target intrinsics and libm calls."""
from . import dag as D
from .symex import Unsupported, LIBM, tyname

def ieee_min(a, b, mx=False):
    """IEEE minimum/maximum with NaN propagation (NEON fmin/fmax, wasm f32x4.min/max)"""
    lt = D.fcmp('olt', b, a) if mx else D.fcmp('olt', a, b)
    gt = D.fcmp('olt', a, b) if mx else D.fcmp('olt', b, a)
    # equal operands (only signed zeros differ): combine sign bits
    x, y = D.tobits(a), D.tobits(b)
    eqv = D.frombits(D.ibin('and', x, y) if mx else D.ibin('or', x, y), a.ty)
    return D.ite(D.fcmp('uno', a, b), D.fadd(a, b), D.ite(lt, a, D.ite(gt, b, eqv)))

def minnum(a, b, mx=False):
    lt = D.fcmp('olt', b, a) if mx else D.fcmp('olt', a, b)
    return D.ite(D.fcmp('uno', b, b), a, D.ite(lt, a, D.ite(D.fcmp('uno', a, a), b, b)))

CMP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']

def fma(a, b, c):
    return D.mk('fma', a.ty, (a, b, c))

def el(f, *vs):
    if isinstance(vs[0], tuple): return tuple(f(*x) for x in zip(*vs))
    return f(*vs)

def mask32(c, ty):
    return D.frombits(D.sext(c, 'i32' if ty == 'f32' else 'i64'), ty)

def intrinsic(ex, st, name, rt, A, T):
    if name.startswith('llvm.'):
        b = name[5:]
        if b.startswith(('memcpy.', 'memmove.')):
            if not D.isc(A[2]): raise Unsupported('symbolic memcpy size')
            ex.copy(st, A[0], A[1], A[2].val); return None
        if b.startswith('memset.'):
            if not (D.isc(A[1]) and D.isc(A[2])): raise Unsupported('memset')
            c, o, f = A[0].alts[0]; n = A[2].val
            if n and ex.check(st, c, o, f, n, 1, 'store'):
                k = 0
                while k < n:
                    w = 4 if n-k >= 4 else 1
                    v = 0
                    for _ in range(w): v = (v << 8) | (A[1].val & 255)
                    ex.raw_store(st, o, f+k, w, D.iconst(v, 'i%d' % (8*w))); k += w
            return None
        if b.startswith(('lifetime.', 'dbg.', 'assume', 'stacksave', 'stackrestore', 'prefetch')): return None
        if b.startswith('expect.'): return A[0]
        if b.startswith('is.constant'): return D.FALSE
        if b.startswith('fmuladd.'): return el(lambda x, y, z: D.fadd(D.fmul(x, y), z), *A)
        if b.startswith('fma.'): return el(fma, *A)
        if b.startswith('sqrt.'): return el(D.sqrt_, A[0])
        if b.startswith('fabs.'): return el(D.fabs_, A[0])
        if b.startswith('abs.'):
            return el(lambda x: D.ite(D.icmp('slt', x, D.iconst(0, x.ty)), D.ibin('sub', D.iconst(0, x.ty), x), x), A[0])
        if b.startswith('copysign.'):
            def cs(x, y):
                t = D.tobits(y); n = t.ty; sb = 1 << (D.bits_of(n)-1)
                return D.frombits(D.ibin('or', D.ibin('and', D.tobits(x), D.iconst(sb-1, n)), D.ibin('and', t, D.iconst(sb, n))), x.ty)
            return el(cs, A[0], A[1])
        for p, o in (('floor.', 'floor'), ('ceil.', 'ceil'), ('trunc.', 'ftrunc'), ('round.', 'round'), ('rint.', 'rint'), ('nearbyint.', 'rint'), ('roundeven.', 'rint'),
                     ('sin.', 'sin'), ('cos.', 'cos'), ('exp.', 'exp'), ('log.', 'log'), ('pow.', 'pow'), ('exp2.', 'exp2')):
            if b.startswith(p): return el(lambda *x: D.fun(o, *x), *A)
        if b.startswith('minnum.'): return el(lambda x, y: minnum(x, y), *A)
        if b.startswith('maxnum.'): return el(lambda x, y: minnum(x, y, True), *A)
        if b.startswith('minimum.'): return el(lambda x, y: ieee_min(x, y), *A)
        if b.startswith('maximum.'): return el(lambda x, y: ieee_min(x, y, True), *A)
        for p, pr, in (('smax.', 'sgt'), ('smin.', 'slt'), ('umax.', 'ugt'), ('umin.', 'ult')):
            if b.startswith(p): return el(lambda x, y: D.ite(D.icmp(pr, x, y), x, y), *A)
        if b.startswith('vector.reduce.fadd'):
            r = A[0]
            for x in A[1]: r = D.fadd(r, x)
            return r
        if b.startswith('vector.reduce.'):
            o = b.split('.')[2]
            xs = A[0]; r = xs[0]
            for x in xs[1:]:
                if o in ('and', 'or', 'xor', 'add', 'mul'): r = D.ibin(o, r, x)
                elif o in ('fmax', 'fmaximum'): r = ieee_min(r, x, True)
                elif o in ('fmin', 'fminimum'): r = ieee_min(r, x)
                else: raise Unsupported(name)
            return r
        if b.startswith('is.fpclass.'):
            return el(lambda x: fpclass(x, A[1].val), A[0])
        if b.startswith('x86.'): return x86(ex, b[4:], A)
        if b.startswith('aarch64.neon.'): return neon(ex, st, b[13:], A, rt, T)
        if b.startswith('arm.neon.'): return neon(ex, st, b[9:], A, rt, T)
        if b.startswith('wasm.'): return wasm(ex, b[5:], A)
        raise Unsupported(name)
    if name in LIBM:
        o = LIBM[name]
        if o is None: raise Unsupported(name)
        if o == 'sqrt': return D.sqrt_(A[0])
        if o == 'fabs': return D.fabs_(A[0])
        return D.fun(o, *A)
    if name in ('modff', 'modf'):
        ip = D.fun('ftrunc', A[0])
        ex.store(st, A[1], ('f', 32 if A[0].ty == 'f32' else 64), ip, 1)
        return D.fsub(A[0], ip)
    if name in ('fminf', 'fmin'): return minnum(A[0], A[1])
    if name in ('fmaxf', 'fmax'): return minnum(A[0], A[1], True)
    if name == 'fmaf': return fma(*A)
    if name in ('abs', 'labs'):
        x = A[0]; return D.ite(D.icmp('slt', x, D.iconst(0, x.ty)), D.ibin('sub', D.iconst(0, x.ty), x), x)
    if getattr(ex, 'io', None) is not None:
        r = ex.io.call(ex, st, name, A)
        if r is not None: return r
    if name in ('memcmp', 'bcmp'):
        # the sign of the first differing byte's difference
        if not D.isc(A[2]): raise Unsupported('symbolic memcmp size')
        r = D.iconst(0, 'i32')
        for k in reversed(range(A[2].val)):
            x, y = (ex.load(st, p.add(k), ('i', 8)) for p in A[:2])
            r = D.ite(D.icmp('eq', x, y), r, D.ite(D.icmp('ult', x, y), D.iconst(-1, 'i32'), D.iconst(1, 'i32')))
        return r
    if name in ('memcpy', 'memmove'):
        ex.copy(st, A[0], A[1], A[2].val); return A[0]
    if name == 'memset':
        return intrinsic(ex, st, 'llvm.memset.', rt, A, T)
    raise Unsupported('extern ' + name)

def fpclass(x, m):
    r = D.FALSE
    inf = D.fconst(float('inf'), x.ty); ninf = D.fneg(inf)
    rest = m
    if m & 3 == 3: r = D.or_(r, D.fcmp('uno', x, x)); rest &= ~3
    if m & 516 == 516: r = D.or_(r, D.fcmp('oeq', D.fabs_(x), inf)); rest &= ~516
    if rest & 512: r = D.or_(r, D.fcmp('oeq', x, inf)); rest &= ~512
    if rest & 4: r = D.or_(r, D.fcmp('oeq', x, ninf)); rest &= ~4
    if rest & 0x60 == 0x60: r = D.or_(r, D.fcmp('oeq', x, D.fconst(0.0, x.ty))); rest &= ~0x60
    if rest & 0x1f8 == 0x198 : 
        # finite non-zero
        r = D.or_(r, D.and_(D.fcmp('olt', D.fabs_(x), inf), D.fcmp('one', x, D.fconst(0.0, x.ty)))); rest &= ~0x198
    if rest: raise Unsupported('fpclass %x' % m)
    return r

def x86(ex, b, A):
    d0 = lambda f, a, *r: (f(a[0], *[x[0] for x in r]),) + tuple(a[1:])
    if b in ('sse.rcp.ps', 'avx.rcp.ps.256'): return el(lambda x: D.fun('rcp', x), A[0])
    if b in ('sse.rsqrt.ps', 'avx.rsqrt.ps.256'): return el(lambda x: D.fun('rsqrt', x), A[0])
    if b == 'sse.rcp.ss': return d0(lambda x: D.fun('rcp', x), A[0])
    if b == 'sse.rsqrt.ss': return d0(lambda x: D.fun('rsqrt', x), A[0])
    mn = lambda x, y: D.ite(D.fcmp('olt', x, y), x, y)
    mx = lambda x, y: D.ite(D.fcmp('ogt', x, y), x, y)
    if b in ('sse.min.ps', 'avx.min.ps.256'): return el(mn, A[0], A[1])
    if b in ('sse.max.ps', 'avx.max.ps.256'): return el(mx, A[0], A[1])
    if b == 'sse.min.ss': return d0(mn, A[0], A[1])
    if b == 'sse.max.ss': return d0(mx, A[0], A[1])
    if b in ('sse.cmp.ps', 'avx.cmp.ps.256', 'sse.cmp.ss'):
        p = CMP[A[2].val & 15]
        f = lambda x, y: mask32(D.fcmp(p, x, y), 'f32')
        return d0(f, A[0], A[1]) if b.endswith('ss') else el(f, A[0], A[1])
    if b in ('sse.movmsk.ps', 'avx.movmsk.ps.256'):
        r = D.iconst(0, 'i32')
        for i, x in enumerate(A[0]):
            s = signbit(x)
            r = D.ibin('or', r, D.ite(s, D.iconst(1 << i, 'i32'), D.iconst(0, 'i32')))
        return r
    if b == 'sse2.pmovmskb.128':
        r = D.iconst(0, 'i32')
        for i, x in enumerate(A[0]):
            s = D.icmp('slt', x, D.iconst(0, x.ty))
            if x.op == 'sext' and x.args[0].ty == 'i1': s = x.args[0]
            r = D.ibin('or', r, D.ite(s, D.iconst(1 << i, 'i32'), D.iconst(0, 'i32')))
        return r
    if b in ('sse3.hadd.ps',):
        a, c = A
        return (D.fadd(a[0], a[1]), D.fadd(a[2], a[3]), D.fadd(c[0], c[1]), D.fadd(c[2], c[3]))
    if b == 'avx.hadd.ps.256':
        a, c = A; r = []
        for k in (0, 4): r += [D.fadd(a[k], a[k+1]), D.fadd(a[k+2], a[k+3]), D.fadd(c[k], c[k+1]), D.fadd(c[k+2], c[k+3])]
        return tuple(r)
    if b in ('sse41.dpps', 'avx.dp.ps.256'):
        a, c, m = A; m = m.val; out = []
        for k in range(0, len(a), 4):
            z = D.fconst(0.0)
            t = [D.fmul(a[k+i], c[k+i]) if (m >> (4+i)) & 1 else z for i in range(4)]
            s = D.fadd(D.fadd(t[0], t[1]), D.fadd(t[2], t[3]))
            out += [s if (m >> i) & 1 else z for i in range(4)]
        return tuple(out)
    if b in ('sse41.round.ps', 'avx.round.ps.256'):
        o = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'ftrunc'}[A[1].val & 3]
        return el(lambda x: D.fun(o, x), A[0])
    if b == 'sse41.round.ss':
        o = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'ftrunc'}[A[2].val & 3]
        return (D.fun(o, A[1][0]),) + tuple(A[0][1:])
    if b in ('sse41.blendvps',):
        return tuple(D.ite(signbit(m), y, x) for x, y, m in zip(A[0], A[1], A[2]))
    if b in ('avx.vpermilvar.ps', 'avx.vpermilvar.ps.256'):
        v, m = A; out = []
        for i, x in enumerate(m):
            if not D.isc(x): raise Unsupported('vpermilvar')
            out.append(v[(i & ~3) + (x.val & 3)])
        return tuple(out)
    if b in ('avx2.permps',):
        return tuple(A[0][x.val & 7] for x in A[1])
    if b.startswith('fma.vfm'): raise Unsupported(b)
    if b in ('avx.maskload.ps',):
        p, m = A
        raise Unsupported(b)
    if b in ('avx.vzeroupper', 'avx.vzeroall', 'sse.sfence'): return None
    raise Unsupported('x86.' + b)

def signbit(x):
    if x.op == 'frombits':
        y = x.args[0]
        if y.op == 'sext' and y.args[0].ty == 'i1': return y.args[0]
        return D.icmp('slt', y, D.iconst(0, y.ty))
    if x.op == 'ite': return D.ite(x.args[0], signbit(x.args[1]), signbit(x.args[2]))
    if D.isc(x): return D.TRUE if x.val >> (D.bits_of('i'+x.ty[1:])-1) else D.FALSE
    y = D.tobits(x)
    return D.icmp('slt', y, D.iconst(0, y.ty))

def neon(ex, st, b, A, rt, T=None):
    n = b.split('.')[0]
    if n == 'vld1':
        return ex.load(st, A[0], rt, A[1].val if len(A) > 1 else 1)
    if n == 'vst1':
        ex.store(st, A[0], T[1], A[1], A[2].val if len(A) > 2 else 1); return None
    if n in ('ld2', 'ld3', 'ld4', 'vld2', 'vld3', 'vld4'):
        k = int(n[-1]); vt = rt[1][0]; m = vt[1]; es = ex.mod.size(vt[2])
        fl = ex.load(st, A[0], ('vec', k*m, vt[2]), A[1].val if len(A) > 1 else es)
        return tuple(tuple(fl[i*k+j] for i in range(m)) for j in range(k))
    if n in ('st2', 'st3', 'st4', 'vst2', 'vst3', 'vst4'):
        k = int(n[-1])
        if n[0] == 'v': p, vs, vt, al = A[0], A[1:1+k], T[1], A[1+k].val
        else: vs, p, vt, al = A[:k], A[k], T[0], ex.mod.size(T[0][2])
        m = vt[1]
        ex.store(st, p, ('vec', k*m, vt[2]), tuple(vs[j][i] for i in range(m) for j in range(k)), al); return None
    if n in ('fmaxp', 'fminp', 'fmaxnmp', 'fminnmp', 'vpmaxs', 'vpmins'):
        v = A[0] + A[1]; g = minnum if 'nm' in n else ieee_min; mx = 'max' in n
        return tuple(g(v[i], v[i+1], mx) for i in range(0, len(v), 2))
    if n in ('fmax', 'fmin', 'vmaxs', 'vmins'): return el(lambda x, y: ieee_min(x, y, n in ('fmax', 'vmaxs')), A[0], A[1])
    if n in ('fmaxnm', 'fminnm'): return el(lambda x, y: minnum(x, y, n == 'fmaxnm'), A[0], A[1])
    if n == 'faddv':
        a = A[0]
        if len(a) == 2: return D.fadd(a[0], a[1])
        return D.fadd(D.fadd(a[0], a[1]), D.fadd(a[2], a[3]))
    if n in ('fmaxv', 'fminv', 'fmaxnmv', 'fminnmv'):
        a = A[0]; g = minnum if 'nm' in n else ieee_min; mx = 'max' in n
        if len(a) == 2: return g(a[0], a[1], mx)
        return g(g(a[0], a[1], mx), g(a[2], a[3], mx), mx)
    if n in ('faddp', 'addp', 'vpadd'):
        v = A[0] + A[1]
        return tuple(D.fadd(v[i], v[i+1]) if v[i].ty[0] == 'f' else D.ibin('add', v[i], v[i+1]) for i in range(0, len(v), 2))
    if n in ('umaxv', 'uminv', 'smaxv', 'sminv'):
        pr = {'umaxv': 'ugt', 'uminv': 'ult', 'smaxv': 'sgt', 'sminv': 'slt'}[n]
        r = A[0][0]
        for x in A[0][1:]: r = D.ite(D.icmp(pr, r, x), r, x)
        return D.zext(r, tyname(rt)) if r.ty != tyname(rt) else r
    if n == 'uaddv' or n == 'saddv':
        r = A[0][0]
        for x in A[0][1:]: r = D.ibin('add', r, x)
        return r if r.ty == tyname(rt) else D.zext(r, tyname(rt))
    if n in ('frecpe', 'vrecpe'): return el(lambda x: D.fun('rcp', x), A[0])
    if n in ('frsqrte', 'vrsqrte'): return el(lambda x: D.fun('rsqrt', x), A[0])
    if n in ('frecps', 'vrecps'): return el(lambda x, y: D.fsub(D.fconst(2.0), D.fmul(x, y)), A[0], A[1])
    if n in ('frsqrts', 'vrsqrts'): return el(lambda x, y: D.fmul(D.fconst(0.5), D.fsub(D.fconst(3.0), D.fmul(x, y))), A[0], A[1])
    if n == 'fabd': return el(lambda x, y: D.fabs_(D.fsub(x, y)), A[0], A[1])
    if n == 'tbl1':
        t, m = A; out = []
        for x in m:
            if not D.isc(x): raise Unsupported('tbl1')
            out.append(t[x.val] if x.val < len(t) else D.iconst(0, 'i8'))
        return tuple(out)
    raise Unsupported('neon.' + b)

def wasm(ex, b, A):
    n = b
    if n.startswith('bitmask'):
        r = D.iconst(0, 'i32')
        for i, x in enumerate(A[0]):
            s = D.icmp('slt', x, D.iconst(0, x.ty))
            if x.op == 'sext' and x.args[0].ty == 'i1': s = x.args[0]
            elif x.op == 'bits': s = signbit(x.args[0])
            r = D.ibin('or', r, D.ite(s, D.iconst(1 << i, 'i32'), D.iconst(0, 'i32')))
        return r
    if n.startswith('shuffle'):
        v = A[0] + A[1]
        return tuple(v[x.val] for x in A[2:])
    if n.startswith('bitselect'):
        a, c, m = A
        return tuple(D.ibin('or', D.ibin('and', x, k), D.ibin('and', y, D.ibin('xor', k, D.iconst(-1, k.ty)))) for x, y, k in zip(a, c, m))
    if n.startswith(('anytrue',)):
        r = D.FALSE
        for x in A[0]: r = D.or_(r, D.icmp('ne', x, D.iconst(0, x.ty)))
        return D.zext(r, 'i32')
    if n.startswith(('alltrue',)):
        r = D.TRUE
        for x in A[0]: r = D.and_(r, D.icmp('ne', x, D.iconst(0, x.ty)))
        return D.zext(r, 'i32')
    if n.startswith('pmin'): return el(lambda x, y: D.ite(D.fcmp('olt', y, x), y, x), A[0], A[1])
    if n.startswith('pmax'): return el(lambda x, y: D.ite(D.fcmp('olt', x, y), y, x), A[0], A[1])
    raise Unsupported('wasm.' + b)
