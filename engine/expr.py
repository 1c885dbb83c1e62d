"""Expression sugar for writing specifications over DAG nodes (exact reals)."""
from fractions import Fraction
from . import dag as D

def rc(v):
    if isinstance(v, float): v = Fraction(v)
    return D.mk('const', 'real', (), Fraction(v))
def N(v):
    if isinstance(v, X): return v.n
    if isinstance(v, D.Node): return v
    if isinstance(getattr(v, 'n', None), D.Node): return v.n
    return rc(v)
class X:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def _b(self, o, op, sw=False):
        a, b = N(self), N(o)
        if sw: a, b = b, a
        za = a.op == 'const' and a.ty == 'real' and a.val == 0
        zb = b.op == 'const' and b.ty == 'real' and b.val == 0
        if op == 'fadd':
            if za: return X(b)
            if zb: return X(a)
        if op == 'fsub' and zb: return X(a)
        if op == 'fmul':
            if za or zb: return ZERO
            if a.op == 'const' and a.ty == 'real' and a.val == 1: return X(b)
            if b.op == 'const' and b.ty == 'real' and b.val == 1: return X(a)
        return X(D.mk(op, 'real', (a, b)))
    def __add__(s, o): return s._b(o, 'fadd')
    def __radd__(s, o): return s._b(o, 'fadd', True)
    def __sub__(s, o): return s._b(o, 'fsub')
    def __rsub__(s, o): return s._b(o, 'fsub', True)
    def __mul__(s, o): return s._b(o, 'fmul')
    def __rmul__(s, o): return s._b(o, 'fmul', True)
    def __truediv__(s, o): return s._b(o, 'fdiv')
    def __rtruediv__(s, o): return s._b(o, 'fdiv', True)
    def __neg__(s): return X(D.mk('fneg', 'real', (s.n,)))
    def __pow__(s, k):
        r = X(rc(1))
        for _ in range(k): r = r*s
        return r
    def __lt__(s, o): return P(D.mk('folt', 'i1', (s.n, N(o))))
    def __le__(s, o): return P(D.mk('fole', 'i1', (s.n, N(o))))
    def __gt__(s, o): return P(D.mk('folt', 'i1', (N(o), s.n)))
    def __ge__(s, o): return P(D.mk('fole', 'i1', (N(o), s.n)))
    def eq(s, o): return P(D.mk('foeq', 'i1', (s.n, N(o))))
    def ne(s, o): return P(D.mk('fone', 'i1', (s.n, N(o))))
    def __repr__(s): return repr(s.n)
ZERO = X(rc(0)); ONE = X(rc(1))
PI = X(D.mk('const', 'real', (), 'pi'))
class P:
    """predicate"""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __and__(s, o): return P(D.and_(s.n, tobool(o)))
    def __or__(s, o): return P(D.or_(s.n, tobool(o)))
    def __xor__(s, o): return P(D.xor_(s.n, tobool(o)))
    def __invert__(s): return P(D.not_(s.n))
    def iff(s, o): return P(D.not_(D.xor_(s.n, tobool(o))))
    def implies(s, o): return P(D.or_(D.not_(s.n), tobool(o)))
    def __repr__(s): return repr(s.n)
def tobool(v):
    if isinstance(v, P): return v.n
    if isinstance(v, bool): return D.TRUE if v else D.FALSE
    if isinstance(getattr(v, 'n', None), D.Node): v = v.n
    if isinstance(v, D.Node):
        return v if v.ty == 'i1' else D.icmp('ne', v, D.iconst(0, v.ty))
    raise TypeError(v)
def x(v): return v if isinstance(v, X) else X(N(v))
def fn(op, *a): return X(D.mk(op, 'real', tuple(N(v) for v in a)))
def sqrt(a): return fn('sqrt', a)
def sin(a): return fn('sin', a)
def cos(a): return fn('cos', a)
def tan(a): return fn('tan', a)
def acos(a): return fn('acos', a)
def asin(a): return fn('asin', a)
def atan2(a, b): return fn('atan2', a, b)
def atan(a): return fn('atan', a)
def absx(a): return fn('fabs', a)
def powx(a, b): return fn('pow', a, b)
def where(c, a, b): return X(D.mk('ite', 'real', (tobool(c), N(a), N(b)))) if not D.isc(tobool(c)) else x(a if tobool(c).val else b)
def minx(a, b): return where(x(a) < x(b), a, b)
def maxx(a, b): return where(x(a) > x(b), a, b)
def all_(l):
    r = P(D.TRUE)
    for p in l: r = r & p
    return r
def any_(l):
    r = P(D.FALSE)
    for p in l: r = r | p
    return r
# ---- small linear algebra (matrices are lists of columns, column-major like the library)
def dot(a, b):
    r = ZERO
    for p, q in zip(a, b): r = r + x(p)*x(q)
    return r
def cross(a, b):
    return [x(a[1])*b[2]-x(a[2])*b[1], x(a[2])*b[0]-x(a[0])*b[2], x(a[0])*b[1]-x(a[1])*b[0]]
def cols(flat, rows): return [flat[i:i+rows] for i in range(0, len(flat), rows)]
def flat(m): return [e for c in m for e in c]
def mm(a, b):
    """a (cols of length r) times b"""
    r = len(a[0])
    return [[sum_([x(a[k][i])*x(bc[k]) for k in range(len(a))]) for i in range(r)] for bc in b]
def mv(a, v): return [sum_([x(a[k][i])*x(v[k]) for k in range(len(a))]) for i in range(len(a[0]))]
def sum_(l):
    r = ZERO
    for e in l: r = r + e
    return r
def tr(a): return [[a[j][i] for j in range(len(a))] for i in range(len(a[0]))]
def ident(n): return [[x(1 if i == j else 0) for i in range(n)] for j in range(n)]
def det(m):
    n = len(m)
    if n == 1: return x(m[0][0])
    s = ZERO
    for j in range(n):
        minor = [c[1:] for i, c in enumerate(m) if i != j]
        t = x(m[j][0])*det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s
def vadd(a, b): return [x(p)+q for p, q in zip(a, b)]
def vsub(a, b): return [x(p)-q for p, q in zip(a, b)]
def vscale(a, k): return [x(p)*k for p in a]
def norm2(a): return dot(a, a)
def norm(a): return sqrt(dot(a, a))
