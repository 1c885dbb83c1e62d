"""Hash-consed expression DAG: the values the symbolic executor computes.

A Node is (op, ty, args, val).  ty is 'f32', 'f64' or 'iN'.  Constants carry their bit pattern in val.
Nothing here is domain specific: the same DAG is lowered to IEEE floats / bit-vectors, to exact reals,
or evaluated concretely (see fpz3.py, real.py, concrete.py)."""
import struct, math
import numpy as np
from fractions import Fraction

_tab = {}
_ctr = [0]

class Node:
    __slots__ = ('op', 'ty', 'args', 'val', 'id')
    def __repr__(self):
        return show(self)

def mk(op, ty, args=(), val=None):
    k = (op, ty, tuple(a.id for a in args), val)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op; n.ty = ty; n.args = tuple(args); n.val = val
        n.id = _ctr[0]; _ctr[0] += 1
        _tab[k] = n
    return n

def reset():
    _tab.clear()

def bits_of(ty):
    return int(ty[1:])

def f32bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]
def bits_f32(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]
def f64bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b & (2**64-1)))[0]

def fconst(x, ty='f32'):
    return mk('const', ty, (), f32bits(x) if ty == 'f32' else f64bits(x))
def fbits(b, ty='f32'):
    return mk('const', ty, (), b)
def iconst(v, ty='i32'):
    return mk('const', ty, (), v & ((1 << bits_of(ty)) - 1))
def var(name, ty='f32'):
    return mk('var', ty, (), name)
def undef(name, ty):
    return mk('undef', ty, (), name)
TRUE = None; FALSE = None
def init():
    global TRUE, FALSE
    TRUE = iconst(1, 'i1'); FALSE = iconst(0, 'i1')
init()

def isc(n): return n.op == 'const'
def sval(n):
    b = bits_of(n.ty); v = n.val
    return v - (1 << b) if v >> (b-1) else v
def fval(n):
    if n.ty == 'real': return n.val          # an exact constant of a specification
    return bits_f32(n.val) if n.ty == 'f32' else bits_f64(n.val)

# ---------------------------------------------------------------- booleans
def not_(c):
    if isc(c): return FALSE if c.val else TRUE
    if c.op == 'not': return c.args[0]
    return mk('not', 'i1', (c,))
def and_(a, b):
    if isc(a): return b if a.val else FALSE
    if isc(b): return a if b.val else FALSE
    if a is b: return a
    if a is not_(b): return FALSE
    if a.id > b.id: a, b = b, a
    return mk('and', 'i1', (a, b))
def or_(a, b):
    if isc(a): return TRUE if a.val else b
    if isc(b): return TRUE if b.val else a
    if a is b: return a
    if a is not_(b): return TRUE
    if a.id > b.id: a, b = b, a
    return mk('or', 'i1', (a, b))
def xor_(a, b):
    if isc(a): return not_(b) if a.val else b
    if isc(b): return not_(a) if b.val else a
    if a is b: return FALSE
    if a.id > b.id: a, b = b, a
    return mk('xor', 'i1', (a, b))

def ite(c, a, b):
    if a is b: return a
    if isc(c): return a if c.val else b
    if c.op == 'not': c = c.args[0]; a, b = b, a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    assert a.ty == b.ty, (a.ty, b.ty)
    if a.ty == 'i1':
        if isc(a): return or_(c, b) if a.val else and_(not_(c), b)
        if isc(b): return or_(not_(c), a) if b.val else and_(c, a)
    # push through common wrappers so that masks stay recognisable
    if a.op == b.op and a.op in ('bits', 'frombits', 'fneg', 'fabs') and a.ty == b.ty and a.args[0].ty == b.args[0].ty:
        return mk_un(a.op, a.ty, ite(c, a.args[0], b.args[0]))
    if a.op == 'concat' and b.op == 'concat' and len(a.args) == len(b.args) and \
       all(x.ty == y.ty for x, y in zip(a.args, b.args)):
        return mk('concat', a.ty, tuple(ite(c, x, y) for x, y in zip(a.args, b.args)))
    return mk('ite', a.ty, (c, a, b))

def mk_un(op, ty, a):
    if op == 'bits': return tobits(a)
    if op == 'frombits': return frombits(a, ty)
    if op == 'fneg': return fneg(a)
    if op == 'fabs': return fabs_(a)
    return mk(op, ty, (a,))

# ---------------------------------------------------------------- float <-> bits
def tobits(a):
    n = 'i32' if a.ty == 'f32' else 'i64'
    if isc(a): return iconst(a.val, n)
    if a.op == 'frombits': return a.args[0]
    if a.op == 'undef': return undef(a.val, n)
    if a.op == 'ite': return ite(a.args[0], tobits(a.args[1]), tobits(a.args[2])) if False else mk('bits', n, (a,))
    return mk('bits', n, (a,))
def frombits(a, ty):
    if isc(a): return fbits(a.val, ty)
    if a.op == 'bits': return a.args[0]
    if a.op == 'undef': return undef(a.val, ty)
    if a.op == 'ite':
        return ite(a.args[0], frombits(a.args[1], ty), frombits(a.args[2], ty))
    return mk('frombits', ty, (a,))

# ---------------------------------------------------------------- float arithmetic
def _npf(ty): return np.float32 if ty == 'f32' else np.float64
def _fold(op, ty, xs):
    with np.errstate(all='ignore'):
        t = _npf(ty)
        v = [t(x) for x in xs]
        if op == 'fadd': r = v[0]+v[1]
        elif op == 'fsub': r = v[0]-v[1]
        elif op == 'fmul': r = v[0]*v[1]
        elif op == 'fdiv': r = v[0]/v[1]
        else: return None
    if np.isfinite(r):            # only exact results are folded, so that the real-number reading keeps the operation
        fa, fb = Fraction(float(v[0])), Fraction(float(v[1]))
        ex = fa+fb if op == 'fadd' else fa-fb if op == 'fsub' else fa*fb if op == 'fmul' else fa/fb
        if ex != Fraction(float(r)): return None
    b = f32bits(float(r)) if ty == 'f32' else f64bits(float(r))
    return fbits(b, ty)
def fbin(op, a, b):
    if isc(a) and isc(b) and 'real' in (a.ty, b.ty):
        x, y = Fraction(fval(a)), Fraction(fval(b))
        if op != 'fdiv' or y: return mk('const', 'real', (), x+y if op == 'fadd' else x-y if op == 'fsub' else x*y if op == 'fmul' else x/y)
    elif isc(a) and isc(b):
        r = _fold(op, a.ty, [fval(a), fval(b)])
        if r is not None: return r
    return mk(op, a.ty, (a, b))
def fadd(a, b): return fbin('fadd', a, b)
def fsub(a, b): return fbin('fsub', a, b)
def fmul(a, b): return fbin('fmul', a, b)
def fdiv(a, b): return fbin('fdiv', a, b)
def fneg(a):
    if isc(a) and a.ty == 'real': return mk('const', 'real', (), -a.val)
    if isc(a): return fbits(a.val ^ (1 << (31 if a.ty == 'f32' else 63)), a.ty)
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', a.ty, (a,))
def fabs_(a):
    if isc(a) and a.ty == 'real': return mk('const', 'real', (), abs(a.val))
    if isc(a): return fbits(a.val & ~(1 << (31 if a.ty == 'f32' else 63)), a.ty)
    if a.op in ('fneg', 'fabs'): return fabs_(a.args[0]) if a.op == 'fneg' else a
    return mk('fabs', a.ty, (a,))
def fun(name, *args, ty=None):
    """library / approximate function"""
    ty = ty or args[0].ty
    return mk(name, ty, tuple(args))
def sqrt_(a):
    if isc(a) and a.ty != 'real':
        x = fval(a)
        if x >= 0:
            with np.errstate(all='ignore'):
                r = float(np.sqrt(_npf(a.ty)(x)))
            return fconst(r, a.ty)
    return mk('sqrt', a.ty, (a,))

SWAP = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
def fcmp(pred, a, b):
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    if isc(a) and isc(b):
        x, y = fval(a), fval(b)
        un = math.isnan(x) or math.isnan(y)
        if pred == 'ord': return FALSE if un else TRUE
        if pred == 'uno': return TRUE if un else FALSE
        base = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        r = (un or base) if pred[0] == 'u' else ((not un) and base)
        return TRUE if r else FALSE
    if pred in SWAP: pred = SWAP[pred]; a, b = b, a
    if pred == 'uno':
        if isc(a) and not math.isnan(fval(a)): a = b
        if isc(b) and not math.isnan(fval(b)): b = a
    if pred == 'ord':
        return not_(fcmp('uno', a, b))
    # u-variants as negations of o-variants
    if pred == 'une': return not_(fcmp('oeq', a, b))
    if pred == 'ult': return not_(fcmp('ole', b, a))   # !(a>=b) = !(b<=a)
    if pred == 'ule': return not_(fcmp('olt', b, a))
    if pred in ('oeq', 'one', 'ueq', 'uno') and a.id > b.id: a, b = b, a
    return mk('f' + pred, 'i1', (a, b))

# ---------------------------------------------------------------- ints
def _mask(ty): return (1 << bits_of(ty)) - 1
def ibin(op, a, b):
    ty = a.ty
    if ty == 'i1':
        if op == 'and': return and_(a, b)
        if op == 'or': return or_(a, b)
        if op in ('xor', 'add', 'sub'): return xor_(a, b)
        if op == 'mul': return and_(a, b)
    n = bits_of(ty); m = _mask(ty)
    if isc(a) and isc(b):
        x, y = a.val, b.val
        if op == 'add': return iconst(x+y, ty)
        if op == 'sub': return iconst(x-y, ty)
        if op == 'mul': return iconst(x*y, ty)
        if op == 'and': return iconst(x & y, ty)
        if op == 'or': return iconst(x | y, ty)
        if op == 'xor': return iconst(x ^ y, ty)
        if op == 'shl': return iconst(x << y, ty) if y < n else iconst(0, ty)
        if op == 'lshr': return iconst(x >> y, ty) if y < n else iconst(0, ty)
        if op == 'ashr': return iconst(sval(a) >> min(y, n-1), ty)
        if y != 0:
            if op == 'udiv': return iconst(x // y, ty)
            if op == 'urem': return iconst(x % y, ty)
            sx, sy = sval(a), sval(b)
            q = abs(sx)//abs(sy); q = q if (sx < 0) == (sy < 0) else -q
            if op == 'sdiv': return iconst(q, ty)
            if op == 'srem': return iconst(sx - q*sy, ty)
    # lift over ite-of-constants (indices, boolean sums)
    for i, (p, q) in enumerate(((a, b), (b, a))):
        if p.op == 'ite' and isc(q) and _constite(p):
            f = (lambda z: ibin(op, z, q)) if i == 0 else (lambda z: ibin(op, q, z))
            return ite(p.args[0], f(p.args[1]), f(p.args[2]))
    if op in ('add', 'mul', 'and', 'or', 'xor') and isc(a): a, b = b, a
    if isc(b):
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b.val == 0: return a
        if op == 'and':
            if b.val == 0: return b
            if b.val == m: return a
        if op == 'or' and b.val == m: return b
        if op == 'mul':
            if b.val == 0: return b
            if b.val == 1: return a
    if op == 'and' and a is b: return a
    if op == 'or' and a is b: return a
    if op == 'xor' and a is b: return iconst(0, ty)
    if op == 'sub' and a is b: return iconst(0, ty)
    if op in ('and', 'or', 'xor'):
        # concat-wise
        if a.op == 'concat' and (isc(b) or (b.op == 'concat' and [x.ty for x in a.args] == [x.ty for x in b.args])):
            return cat([ibin(op, x, y) for x, y in zip(a.args, split_like(b, a.args))])
        if b.op == 'concat':
            return cat([ibin(op, x, y) for x, y in zip(split_like(a, b.args), b.args)]) if isc(a) else mk(op, ty, (a, b))
        # masks: sext(i1), and ite
        for p, q in ((a, b), (b, a)):
            if p.op == 'sext' and p.args[0].ty == 'i1':
                c = p.args[0]; ones = iconst(-1, ty); zero = iconst(0, ty)
                if q.op == 'sext' and q.args[0].ty == 'i1':
                    return sext(ibin(op, c, q.args[0]), ty)
                if op == 'xor' and isc(q) and q.val == m: return sext(not_(c), ty)
                return ite(c, ibin(op, ones, q), ibin(op, zero, q))
        for p, q in ((a, b), (b, a)):
            if p.op == 'ite' and (isc(p.args[1]) or isc(p.args[2])):
                c = p.args[0]
                q1, q2 = (q.args[1], q.args[2]) if q.op == 'ite' and q.args[0] is c else (q, q)
                return ite(c, ibin(op, p.args[1], q1), ibin(op, p.args[2], q2))
        for p, q in ((a, b), (b, a)):
            if isc(q) and p.op == 'bits':
                f = p.args[0]; sb = 1 << (n-1)
                if op == 'and' and q.val == m ^ sb: return tobits(fabs_(f))
                if op == 'xor' and q.val == sb: return tobits(fneg(f))
                if op == 'or' and q.val == sb: return tobits(fneg(fabs_(f)))
                if op == 'and' and q.val == sb: return mk('signbits', ty, (f,))
        # or/xor of sign bits with zero-sign constant etc. left as is
        for p, q in ((a, b), (b, a)):
            if p.op == 'signbits' and op == 'xor' and q.op == 'bits':
                # flip sign of q by sign of p
                return mk('xor', ty, (q, p))
    if op in ('add', 'mul', 'and', 'or', 'xor') and a.id > b.id and not isc(b): a, b = b, a
    return mk(op, ty, (a, b))

def _constite(n, d=0):
    if isc(n): return True
    return n.op == 'ite' and d < 6 and _constite(n.args[1], d+1) and _constite(n.args[2], d+1)

def icmp(pred, a, b):
    if isc(a) and isc(b):
        x, y = a.val, b.val
        if pred[0] == 's': x, y = sval(a), sval(b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        return TRUE if r else FALSE
    if a is b:
        return TRUE if pred in ('eq', 'sle', 'sge', 'ule', 'uge') else FALSE
    for i, (p, q) in enumerate(((a, b), (b, a))):
        if p.op == 'ite' and isc(q) and _constite(p):
            f = (lambda z: icmp(pred, z, q)) if i == 0 else (lambda z: icmp(pred, q, z))
            return ite(p.args[0], f(p.args[1]), f(p.args[2]))
    if a.ty == 'i1':
        if pred == 'eq': return not_(xor_(a, b))
        if pred == 'ne': return xor_(a, b)
    if pred == 'ne': return not_(icmp('eq', a, b))
    if pred in ('sgt', 'ugt'): return icmp(pred[0]+'lt', b, a)
    if pred in ('sge', 'uge'): return not_(icmp(pred[0]+'lt', a, b))
    if pred in ('sle', 'ule'): return not_(icmp(pred[0]+'lt', b, a))
    if pred == 'eq' and a.id > b.id: a, b = b, a
    return mk('i' + pred, 'i1', (a, b))

def zext(a, ty):
    if a.ty == ty: return a
    if isc(a): return iconst(a.val, ty)
    if a.ty == 'i1': return ite(a, iconst(1, ty), iconst(0, ty))
    if _constite(a): return ite(a.args[0], zext(a.args[1], ty), zext(a.args[2], ty))
    if a.op == 'undef': return undef(a.val, ty)
    return mk('zext', ty, (a,))
def sext(a, ty):
    if a.ty == ty: return a
    if isc(a): return iconst(sval(a), ty)
    if a.ty == 'i1' : return mk('sext', ty, (a,))
    if _constite(a): return ite(a.args[0], sext(a.args[1], ty), sext(a.args[2], ty))
    if a.op == 'sext': return sext(a.args[0], ty)
    if a.op == 'undef': return undef(a.val, ty)
    return mk('sext', ty, (a,))
def trunc(a, ty):
    if a.ty == ty: return a
    if isc(a): return iconst(a.val, ty)
    if _constite(a): return ite(a.args[0], trunc(a.args[1], ty), trunc(a.args[2], ty))
    n = bits_of(ty)
    if a.op in ('zext', 'sext'):
        x = a.args[0]; k = bits_of(x.ty)
        if k == n: return x
        if k > n: return trunc(x, ty)
        return zext(x, ty) if a.op == 'zext' else sext(x, ty)
    return slice_(a, 0, n)

def cat(parts):
    """little-endian concatenation of integer nodes"""
    flat = []
    for p in parts:
        if p.op == 'concat': flat.extend(p.args)
        else: flat.append(p)
    # merge adjacent slices
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if isc(p) and isc(q):
                n = bits_of(q.ty)
                out[-1] = iconst(q.val | (p.val << n), 'i%d' % (n + bits_of(p.ty))); continue
            if p.op == 'slice' and q.op == 'slice' and p.args[0] is q.args[0] and q.val + bits_of(q.ty) == p.val:
                n = bits_of(q.ty) + bits_of(p.ty)
                out[-1] = slice_(q.args[0], q.val, n); continue
        out.append(p)
    if len(out) == 1: return out[0]
    n = sum(bits_of(p.ty) for p in out)
    return mk('concat', 'i%d' % n, tuple(out))
_slmemo = {}
def slice_(a, lo, n):
    w = bits_of(a.ty)
    if lo == 0 and n == w: return a
    ty = 'i%d' % n
    if isc(a): return iconst(a.val >> lo, ty)
    if a.op == 'undef': return undef(a.val, ty)
    if a.op == 'slice': return slice_(a.args[0], a.val + lo, n)
    if a.op == 'zext':
        k = bits_of(a.args[0].ty)
        if lo >= k: return iconst(0, ty)
        if lo + n <= k: return slice_(a.args[0], lo, n)
    if a.op == 'ite' and a.val is None and n == 1:
        key = (a.id, lo)
        r = _slmemo.get(key)
        if r is None:
            r = _slmemo[key] = ite(a.args[0], slice_(a.args[1], lo, n), slice_(a.args[2], lo, n))
        return r
    if a.op == 'sext' and a.args[0].ty == 'i1': return sext(a.args[0], ty) if n > 1 else a.args[0]
    if a.op == 'concat':
        pos = 0; out = []
        for p in a.args:
            k = bits_of(p.ty)
            s, e = max(lo, pos), min(lo+n, pos+k)
            if s < e: out.append(slice_(p, s-pos, e-s))
            pos += k
        return cat(out)
    return mk('slice', ty, (a,), lo)
def split_like(a, parts):
    pos = 0; out = []
    for p in parts:
        k = bits_of(p.ty); out.append(slice_(a, pos, k)); pos += k
    return out

def postorder(roots):
    seen = set(); out = []
    st = [(r, 0) for r in roots]
    st = list(roots)[::-1]
    stack = [(r, False) for r in st]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id)
        stack.append((n, True))
        for a in reversed(n.args):
            if a.id not in seen: stack.append((a, False))
    return out

def show(n, depth=6):
    if n.op == 'const':
        if n.ty[0] == 'f': return repr(fval(n))
        if n.ty == 'real': return str(n.val)
        return str(sval(n)) if n.ty != 'i1' else str(bool(n.val))
    if n.op in ('var', 'undef'): return ('' if n.op == 'var' else 'undef:') + str(n.val)
    if depth == 0: return '#%d' % n.id
    s = n.op + ('@%s' % n.val if n.val is not None else '')
    return s + '(' + ', '.join(show(a, depth-1) for a in n.args) + ')'

def rebuild(n, args):
    """node like n over other arguments (used for substitution)"""
    op = n.op; ty = n.ty
    if not args: return n
    if ty == 'real' or any(a.ty == 'real' for a in args):
        if op == 'ite' and isc(args[0]): return args[1] if args[0].val else args[2]
        return mk(op, ty, tuple(args), n.val)
    if op == 'ite': return ite(*args)
    if op == 'not': return not_(args[0])
    if ty == 'i1' and op in ('and', 'or', 'xor'):
        return {'and': and_, 'or': or_, 'xor': xor_}[op](*args)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fbin(op, *args)
    if op == 'fneg': return fneg(args[0])
    if op == 'fabs': return fabs_(args[0])
    if op == 'sqrt': return sqrt_(args[0])
    if op in ('folt', 'fole', 'foeq', 'fone', 'fueq', 'funo'): return fcmp(op[1:], *args)
    if op in ('ieq', 'islt', 'iult'): return icmp(op[1:], *args)
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
        return ibin(op, *args)
    if op == 'zext': return zext(args[0], ty)
    if op == 'sext': return sext(args[0], ty)
    if op == 'slice': return slice_(args[0], n.val, bits_of(ty))
    if op == 'concat': return cat(list(args))
    if op == 'bits': return tobits(args[0])
    if op == 'frombits': return frombits(args[0], ty)
    return mk(op, ty, tuple(args), n.val)

def subst(roots, mp):
    """mp: node.id -> Node; returns new roots"""
    memo = dict(mp)
    for n in postorder(roots):
        if n.id in memo: continue
        if not n.args: memo[n.id] = n; continue
        na = [memo[a.id] for a in n.args]
        memo[n.id] = n if all(x is y for x, y in zip(na, n.args)) else rebuild(n, na)
    return [memo[r.id] for r in roots]
