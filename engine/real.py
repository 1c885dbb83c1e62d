"""Exact real-number semantics of a DAG: rational functions over the inputs with algebraic atoms for sqrt and trigonometric
functions.  Conditions are decided along symbolic paths (NeedSplit) so that every if-then-else is covered; the residual
polynomial question of each path goes to the SMT solver (see prove.py)."""
from fractions import Fraction
import math, struct, time
from functools import reduce
import numpy as np
from . import dag as D

SH = 8
class NeedSplit(Exception):
    def __init__(self, key, pos): self.key = key; self.pos = pos
class Restart(Exception): pass
class TooBig(Exception): pass
class NotReal(Exception): pass

# ---------------------------------------------------------------- polynomials: dict packed-monomial -> int|Fraction
def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s: r[m] = s
        else: r.pop(m, None)
    return r
def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) - c
        if s: r[m] = s
        else: r.pop(m, None)
    return r
def pneg(a): return {m: -c for m, c in a.items()}
def pscale(a, k): return {m: c*k for m, c in a.items()} if k else {}
LIMIT = [200000]
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a)*len(b) > LIMIT[0]*10: raise TooBig()
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1*c2
    return {m: c for m, c in r.items() if c}
ONE = {0: 1}
def pconst(k): return {0: k} if k else {}
def isconst(p): return not p or (len(p) == 1 and 0 in p)
def content(p):
    n = 0; d = 1
    for c in p.values():
        f = c if isinstance(c, Fraction) else Fraction(c)
        n = math.gcd(n, f.numerator); d = d*f.denominator//math.gcd(d, f.denominator)
    return Fraction(n, d)
def norm(c):
    return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c
def primitive(p):
    """-> (k, q) with p = k*q, q integer primitive, leading coefficient positive"""
    k = content(p)
    if p[max(p)] < 0: k = -k
    return k, {m: norm(Fraction(c)/k) for m, c in p.items()}
def pkey(p): return frozenset(p.items())

def snap(c, ty):
    """float constant -> exact rational, or ('pi', q) if it is the float nearest q*pi"""
    if c != c or c in (float('inf'), float('-inf')): raise NotReal('non-finite constant')
    if c == 0: return Fraction(0)
    f = Fraction(c)
    n = abs(f.numerator)
    while n % 2 == 0: n //= 2
    if n < 4096: return f
    tof = (lambda x: struct.unpack('<f', struct.pack('<f', x))[0]) if ty == 'f32' else float
    for base, nm in ((math.pi, 'pi'), (1/math.pi, 'ipi')):
        q = Fraction(c/base).limit_denominator(720)
        if q and tof(float(q)*base) == c and q.denominator <= 720 and abs(q.numerator) <= 720: return (nm, q)
    q = f.limit_denominator(999)
    if q and tof(float(q)) == c: return q
    for root in (2, 3):
        q = Fraction(c/math.sqrt(root)).limit_denominator(64)
        if q and tof(float(q)*math.sqrt(root)) == c and q.denominator in (1, 2, 3, 4, 6, 8): return ('sqrt', root, q)
    s = Fraction(np.format_float_scientific(np.float32(c) if ty == 'f32' else np.float64(c), unique=True))
    return s

class RF:
    __slots__ = ('n', 'd')     # numerator poly, dict factor-id -> exp
    def __init__(self, n, d=None): self.n = n; self.d = d or {}

class Ctx:
    """ring of the atoms used by one family of claims"""
    def __init__(self):
        self.vars = {}; self.names = []; self.rules = {}; self.atoms = {}
        self.facs = []; self.fackey = {}
        self.pos = set()          # factor ids known > 0 / >= 0
        self.nonneg = set()       # variable indices known >= 0
        self.units = {}           # angle base key -> unit Fraction
        self.memo = {}            # node.id -> RF (condition free)
        self.sqrts = []           # (arg RF, RF)
        self.funs = []            # (op, [RF args], RF value)
        self.trig = {}            # angle base key -> (cosRF, sinRF) at unit
        self.angleatoms = {}      # var index -> (op, RF args)
        self.defs = {}            # var index -> description for the solver: ('sqrt', RF) ...
        self.varnode = {}         # var index -> node or None (inputs)
        self.hints = []           # nodes k: sqrt(k^2) -> |k|
        self.pre = []             # preset rules: (name, node) meaning name^2 = node
        self.assumed_polys = {}
        self.assumed = {}         # poly key -> allowed signs
        self.path = {}
        self.splits = 0
        self.dep = {}             # node id -> depends on path
        self.prerules = []
        self.deadline = None
        self.pmemo = {}; self.ptrig = {}; self.pathuses = 0
        self.divs = []

    def idx(self, name):
        i = self.vars.get(name)
        if i is None:
            i = self.vars[name] = len(self.names); self.names.append(name)
        return i
    def var(self, name): return {1 << (SH*self.idx(name)): 1}
    def exp(self, m, i): return (m >> (SH*i)) & ((1 << SH)-1)

    # -------------------------------------------------------- reduction by rules  v^2 -> P/Q
    def reduce(self, n, d):
        """eliminate squares of rule variables from numerator; returns RF"""
        if not self.rules: return RF(n, d)
        changed = True; d = dict(d)
        order = sorted(self.rules, reverse=True)
        while changed:
            changed = False
            for i in order:
                P, Q = self.rules[i]
                sh = SH*i; msk = ((1 << SH)-1) << sh
                hi = 0
                for m in n:
                    e = (m & msk) >> sh
                    if e > hi: hi = e
                if hi < 2: continue
                changed = True
                by = {}
                for m, c in n.items():
                    e = (m & msk) >> sh
                    k = e//2
                    mm = m - ((2*k) << sh)
                    t = by.setdefault(k, {})
                    t[mm] = t.get(mm, 0) + c
                K = max(by)
                if Q == ONE:
                    # Horner
                    acc = by[K]
                    for k in range(K-1, -1, -1):
                        acc = pmul(acc, P)
                        if k in by: acc = padd(acc, by[k])
                    n = acc
                else:
                    acc = by[K]; qp = ONE
                    for k in range(K-1, -1, -1):
                        acc = pmul(acc, P); qp = pmul(qp, Q)
                        if k in by: acc = padd(acc, pmul(by[k], qp))
                    n = acc
                    kk, fs = self.factor(Q)
                    for f, e in fs.items(): d[f] = d.get(f, 0) + e*K
                    n = pscale(n, Fraction(1)/(kk**K))
                n = {m: norm(c) for m, c in n.items() if c}
                if len(n) > LIMIT[0]: raise TooBig()
        return RF(n, d)

    # -------------------------------------------------------- factors
    def facid(self, p):
        k = pkey(p)
        i = self.fackey.get(k)
        if i is None:
            i = self.fackey[k] = len(self.facs); self.facs.append(p)
            if self.sos(p) == '+': self.pos.add(i)
        return i
    def factor(self, p):
        """p -> (const, {facid: exp}); splits off monomials and known factors, perfect squares"""
        k, q = primitive(p)
        fs = {}
        if isconst(q): return k, fs
        # monomial part
        com = None
        for m in q:
            com = m if com is None else self.mgcd(com, m)
            if com == 0: break
        if com:
            q = {m-com: c for m, c in q.items()}
            for i in range(len(self.names)):
                e = self.exp(com, i)
                if e:
                    f = self.facid({1 << (SH*i): 1}); fs[f] = fs.get(f, 0) + e
        while not isconst(q):
            if len(q) > 1 and len(q) < 400:
                hit = False
                if pkey(q) not in self.fackey:
                    for i, f in enumerate(self.facs):
                        if 1 < len(f) <= len(q) and len(self.facs) < 60:
                            r = self.pdiv(q, f)
                            if r is not None:
                                fs[i] = fs.get(i, 0) + 1; kk, q = primitive(r); k *= kk; hit = True; break
                if hit: continue
                s = self.psqrt(q)
                if s is not None:
                    kk, fs2 = self.factor(s)
                    for i, e in fs2.items(): fs[i] = fs.get(i, 0) + 2*e
                    k *= kk*kk; q = ONE; break
            i = self.facid(q); fs[i] = fs.get(i, 0) + 1; break
        if isconst(q): k = k*q.get(0, 1)
        # squares of rule variables
        for i in list(fs):
            f = self.facs[i]
            if len(f) == 1:
                v = self.onevar(f)
                if v in self.rules and fs[i] >= 2:
                    P, Q = self.rules[v]; e = fs[i]//2; fs[i] -= 2*e
                    if not fs[i]: del fs[i]
                    kk, f2 = self.factor(P)
                    k *= kk**e
                    for a, b in f2.items(): fs[a] = fs.get(a, 0) + b*e
                    if Q != ONE:
                        k2, f3 = self.factor(Q); k /= k2**e
                        for a, b in f3.items(): fs[a] = fs.get(a, 0) - b*e
        return k, fs
    def onevar(self, f):
        m = next(iter(f)); i = 0
        while (m >> (SH*(i+1))): i += 1
        return i
    def mgcd(self, a, b):
        if a == 0 or b == 0: return 0
        r = 0; i = 0
        while (a >> (SH*i)) and (b >> (SH*i)):
            e = min(self.exp(a, i), self.exp(b, i))
            if e: r |= e << (SH*i)
            i += 1
        return r
    def mdivides(self, a, b):
        """does monomial a divide b"""
        i = 0
        while a >> (SH*i):
            if self.exp(a, i) > self.exp(b, i): return False
            i += 1
        return True
    def pdiv(self, p, f):
        """exact division or None"""
        lf = max(f); cf = f[lf]
        p = dict(p); q = {}
        steps = 0
        # quick check on the trailing monomial
        sp = min(p); sf = min(f)
        if not self.mdivides(sf, sp) or not self.mdivides(lf, max(p)): return None
        while p:
            m = max(p)
            if not self.mdivides(lf, m): return None
            t = m - lf; c = Fraction(p[m])/cf; c = norm(c)
            q[t] = c
            for mm, cc in f.items():
                k = mm + t; s = p.get(k, 0) - c*cc
                if s: p[k] = s
                else: p.pop(k, None)
            steps += 1
            if steps > 3000: return None
        return q
    def psqrt(self, p):
        """polynomial square root or None"""
        if not p: return {}
        m = max(p); c = p[m]
        def odd(m):
            i = 0
            while m >> (SH*i):
                if self.exp(m, i) & 1: return True
                i += 1
            return False
        if odd(m) or odd(min(p)): return None
        c = Fraction(c)
        if c < 0: return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a*a != c.numerator or b*b != c.denominator: return None
        half = self.mhalf(m)
        s = {half: norm(Fraction(a, b))}; lead = 2*Fraction(a, b)
        rem = psub(p, pmul(s, s)); it = 0
        while rem:
            m = max(rem)
            if not self.mdivides(half, m): return None
            t = m - half
            if t >= half: return None
            k = norm(Fraction(rem[m])/lead)
            # (s+kt)^2 = s^2 + 2 s k t + k^2 t^2
            rem = psub(rem, padd(pscale(pmul(s, {t: 1}), 2*k), {2*t: k*k}))
            s[t] = k; it += 1
            if it > 60: return None
        return s
    def mhalf(self, m):
        r = 0; i = 0
        while m >> (SH*i):
            r |= (self.exp(m, i)//2) << (SH*i); i += 1
        return r

    # -------------------------------------------------------- field operations
    def simp(self, n, d):
        if not n: return RF({})
        r = self.reduce(n, {k: e for k, e in d.items() if e})
        n, d = r.n, r.d
        if not n: return RF({})
        if any(e < 0 for e in d.values()):
            for f in [f for f, e in d.items() if e < 0]:
                for _ in range(-d[f]): n = pmul(n, self.facs[f])
                del d[f]
            return self.simp(n, d)
        for f in list(d):
            p = self.facs[f]
            while d.get(f, 0) > 0:
                if len(p) == 1:
                    m = next(iter(p))
                    if all(self.mdivides(m, k) for k in n):
                        n = {k-m: c for k, c in n.items()}
                    else: break
                elif len(p) <= len(n) and len(n) <= 600:
                    q = self.pdiv(n, p)
                    if q is None: break
                    n = q
                else: break
                d[f] -= 1
                if not d[f]: del d[f]
        # rule variable in the denominator: 1/v stays unless v^2 present
        for f in list(d):
            p = self.facs[f]
            if len(p) == 1:
                v = self.onevar(p)
                if v in self.rules and d[f] >= 2:
                    P, Q = self.rules[v]
                    e = d[f]//2; d[f] -= 2*e
                    if not d[f]: del d[f]
                    k, fs = self.factor(P)
                    n = pscale(n, Fraction(1)/(k**e))
                    for a, b in fs.items(): d[a] = d.get(a, 0) + b*e
                    if Q != ONE:
                        for _ in range(e): n = pmul(n, Q)
                    return self.simp(n, d)
        return RF({m: norm(c) for m, c in n.items()}, d)
    def add(self, a, b, sign=1):
        if not a.n: return b if sign == 1 else RF(pneg(b.n), b.d)
        if not b.n: return a
        if a.d == b.d:
            return self.simp(padd(a.n, b.n) if sign == 1 else psub(a.n, b.n), a.d)
        l = dict(a.d)
        for f, e in b.d.items():
            if l.get(f, 0) < e: l[f] = e
        def up(x):
            n = x.n
            for f, e in l.items():
                for _ in range(e - x.d.get(f, 0)): n = pmul(n, self.facs[f])
            return n
        p, q = up(a), up(b)
        return self.simp(padd(p, q) if sign == 1 else psub(p, q), l)
    def sub(self, a, b): return self.add(a, b, -1)
    def mul(self, a, b):
        if not a.n or not b.n: return RF({})
        # cancel numerator constants/monomials against denominators happens in simp
        d = dict(a.d)
        for f, e in b.d.items(): d[f] = d.get(f, 0) + e
        # try cheap cross cancellation first
        an, bn = a.n, b.n
        for f in list(d):
            p = self.facs[f]
            if len(p) == 1: continue
            for w in (0, 1):
                x = an if w == 0 else bn
                while d.get(f, 0) > 0 and len(x) >= len(p) and len(x) < 600:
                    q = self.pdiv(x, p)
                    if q is None: break
                    x = q; d[f] -= 1
                if w == 0: an = x
                else: bn = x
        return self.simp(pmul(an, bn), d)
    def inv(self, a):
        if not a.n: raise ZeroDivisionError()
        k, fs = self.factor(a.n)
        n = ONE
        d = {}
        for f, e in fs.items(): d[f] = d.get(f, 0) + e
        for f, e in a.d.items(): d[f] = d.get(f, 0) - e
        return self.simp(pconst(norm(Fraction(1)/k)), d)
    def div(self, a, b): return self.mul(a, self.inv(b))
    def const(self, c): return RF(pconst(norm(Fraction(c))))
    def iszero(self, a): return not a.n
    def same(self, a, b): return not self.sub(a, b).n

    # -------------------------------------------------------- signs and conditions
    def sos(self, p):
        """'+': >0, '0+': >=0, '-'.. None unknown, by coefficients only"""
        if not p: return '0'
        if isconst(p): return '+' if p[0] > 0 else '-'
        sg = None
        for m, c in p.items():
            i = 0; ok = True
            while m >> (SH*i):
                if self.exp(m, i) & 1 and i not in self.nonneg: ok = False; break
                i += 1
            if not ok: return None
            s = 1 if c > 0 else -1
            if sg is None: sg = s
            elif sg != s: return None
        strict = 0 in p
        if sg > 0: return '+' if strict else '0+'
        return '-' if strict else '0-'
    def linpos(self, p): return None

    def signkey(self, r):
        """sign of an RF -> (key, flip) with key a canonical polynomial"""
        n = r.n
        for f, e in r.d.items():
            if e & 1 and f not in self.pos:
                p = self.facs[f]
                if len(p) == 1 and self.onevar(p) in self.nonneg: continue
                s = self.sos(p)
                if s in ('+', '0+'): continue
                n = self.reduce(pmul(n, p), {})
                if n.d: raise TooBig()
                n = n.n
        if not n: return None, 1
        k, q = primitive(n)
        # strip known positive factors / squares
        com = None
        for m in q:
            com = m if com is None else self.mgcd(com, m)
            if com == 0: break
        if com:
            # keep odd part only; zero set of even part ignored only if the variable is known nonzero -> keep exponent 1 or 2
            red = 0; i = 0
            while com >> (SH*i):
                e = self.exp(com, i)
                if e > 2: red |= (e - (1 if e & 1 else 2)) << (SH*i)
                i += 1
            if red: q = {m-red: c for m, c in q.items()}
        return q, (1 if k > 0 else -1)

    ALL = frozenset('-0+')
    def allowed(self, q):
        if not q: return frozenset('0')
        s = self.sos(q)
        base = {'+': '+', '-': '-', '0+': '0+', '0-': '0-', None: '-0+', '0': '0'}[s]
        a = frozenset(base)
        k = pkey(q)
        if k in self.assumed: a &= self.assumed[k]
        if k in self.path:
            self.pathuses += 1
            a &= self.path[k][0]
        return a
    def decide(self, r, want):
        """is sign(r) in want?  may raise NeedSplit"""
        q, fl = self.signkey(r)
        if q is None: return '0' in want
        if fl < 0: want = {'-': '+', '+': '-', '0': '0'} and frozenset({'-': '+', '+': '-', '0': '0'}[x] for x in want)
        want = frozenset(want)
        a = self.allowed(q)
        if a <= want: return True
        if not (a & want): return False
        raise NeedSplit(q, want)
    def assume_sign(self, r, want):
        q, fl = self.signkey(r)
        if q is None: return
        if fl < 0: want = [{'-': '+', '+': '-', '0': '0'}[x] for x in want]
        k = pkey(q)
        self.assumed[k] = self.assumed.get(k, self.ALL) & frozenset(want)
        self.assumed_polys[k] = q
        if self.assumed[k] <= frozenset('+'): self.pos.add(self.facid(q))

    # -------------------------------------------------------- atoms
    def newatom(self, name, rule=None, nonneg=False, desc=None):
        i = self.idx(name)
        if rule is not None: self.rules[i] = rule
        if nonneg:
            self.nonneg.add(i)
        self.defs[i] = desc
        return RF({1 << (SH*i): 1})
    def absval(self, r):
        if not r.n: return r
        return r if self.decide(r, '0+') else RF(pneg(r.n), r.d)

    def sqrt(self, r):
        if not r.n: return r
        k, fs = self.factor(r.n)
        d = dict(fs)
        for f, e in r.d.items(): d[f] = d.get(f, 0) - e
        out = RF(ONE); rest_n = ONE; rest = {}
        for f, e in d.items():
            h = e//2 if e >= 0 else -((-e)//2)
            if h:
                p = RF(self.facs[f])
                a = self.absval(p)
                out = self.mul(out, self.power(a, h))
            e2 = e - 2*h
            if e2: rest[f] = e2
        # numeric part
        num, den = k.numerator if isinstance(k, Fraction) else k, k.denominator if isinstance(k, Fraction) else 1
        neg = num < 0
        num = abs(num)
        def sq(x):
            s = 1; p = 2; y = x
            while p*p <= y and p < 100:
                while y % (p*p) == 0: y //= p*p; s *= p
                p += 1
            t = math.isqrt(y)
            if t*t == y: s *= t; y = 1
            return s, y
        s1, n1 = sq(num); s2, d1 = sq(den)
        # sqrt(n1/d1) = sqrt(n1*d1)/d1
        out = RF(pscale(out.n, Fraction(s1, s2)), out.d)
        rk = Fraction(n1, d1) * (-1 if neg else 1)
        if not rest:
            if rk == 1: return out
            if rk < 0: raise NotReal('sqrt of negative constant')
        arg_n = pconst(norm(rk)); arg_d = {}
        for f, e in rest.items():
            if e > 0: arg_n = pmul(arg_n, self.facs[f])
            else: arg_d[f] = -e
        arg = self.simp(arg_n, arg_d)
        # hints: is arg the square of a known expression?
        for h in self.hintrfs():
            if self.same(self.mul(h, h), arg): return self.mul(out, self.absval(h))
        for a, v in self.sqrts:
            if self.same(a, arg): return self.mul(out, v)
        # avoid denominators under the root when their sign is known positive
        name = 'r%d' % len(self.names)
        Q = ONE
        for f, e in arg.d.items():
            for _ in range(e): Q = pmul(Q, self.facs[f])
        v = self.newatom(name, (arg.n, Q), True, ('sqrt', arg))
        self.sqrts.append((arg, v))
        return self.mul(out, v)
    def hintrfs(self):
        if self.hbusy: return []
        self.hbusy = True
        try:
            h = [self.low(x) for x in self.hints]
            for c, s in list(self.trig.values()): h += [s, c]
        finally: self.hbusy = False
        return h
    hbusy = False
    def power(self, r, n):
        if n < 0: return self.power(self.inv(r), -n)
        out = RF(ONE)
        for _ in range(n): out = self.mul(out, r)
        return out

    def fun(self, op, args):
        for o, as_, v in self.funs:
            if o == op and all(self.same(x, y) for x, y in zip(as_, args)): return v
        name = '%s%d' % (op, len(self.names))
        v = self.newatom(name, None, op in ('acos', 'fmod_nn', 'exp', 'exp2') or (op == 'pow' and isconst(args[0].n) and not args[0].d and args[0].n.get(0, 0) > 0), (op, args))
        i = self.idx(name)
        self.angleatoms[i] = (op, args)
        self.funs.append((op, list(args), v))
        return v

    def lin(self, r):
        """linear decomposition of an angle: (q_pi, {base: coef})"""
        pi = self.idx('pi'); pm = 1 << (SH*pi)
        q = Fraction(0); out = {}
        dk = frozenset(r.d.items())
        for m, c in r.n.items():
            if m == pm and not dk: q = Fraction(c); continue
            out[(m, dk)] = Fraction(c)
        return q, out
    def trigof(self, r):
        """(cos r, sin r)"""
        q, lin = self.lin(r)
        C, S = RF(ONE), RF({})
        for base, coef in sorted(lin.items(), key=lambda x: (x[0][0], sorted(x[0][1]))):
            u = self.units.get(base)
            if u is None: u = self.units[base] = abs(coef)
            if (coef/u).denominator != 1:
                # refine
                a, b = coef, u
                g = Fraction(math.gcd(a.numerator*b.denominator, b.numerator*a.denominator), a.denominator*b.denominator)
                self.units[base] = g; self.clear(); raise Restart()
            k = int(coef/u)
            c1, s1 = self.unit_trig(base, u)
            ck, sk = self.multiple(c1, s1, abs(k))
            if k < 0: sk = RF(pneg(sk.n), sk.d)
            C, S = self.sub(self.mul(C, ck), self.mul(S, sk)), self.add(self.mul(S, ck), self.mul(C, sk))
        if q:
            q = q % 2
            if (q*2).denominator == 1:
                cc, ss = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q*2)]
                cc, ss = self.const(cc), self.const(ss)
            elif (q*4).denominator == 1:
                h = self.mul(self.sqrt(self.const(2)), self.const(Fraction(1, 2)))
                k = int(q*4); sc = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[k]
                cc, ss = self.mul(h, self.const(sc[0])), self.mul(h, self.const(sc[1]))
            elif (q*6).denominator == 1:
                h = self.mul(self.sqrt(self.const(3)), self.const(Fraction(1, 2))); hf = self.const(Fraction(1, 2))
                k = int(q*6)
                cs = {1: (1, 1, 'h'), 2: (1, 1, 's'), 4: (-1, 1, 's'), 5: (-1, 1, 'h'), 7: (-1, -1, 'h'), 8: (-1, -1, 's'), 10: (1, -1, 's'), 11: (1, -1, 'h')}[k]
                cc, ss = (h, hf) if cs[2] == 'h' else (hf, h)
                cc, ss = self.mul(cc, self.const(cs[0])), self.mul(ss, self.const(cs[1]))
            else:
                key = ('pi', q)
                if key not in self.trig:
                    n = len(self.names)
                    c = self.newatom('cpi%d' % n, None, False, ('cospi', q)); ci = self.idx('cpi%d' % n)
                    s = self.newatom('spi%d' % n, (psub(ONE, {2 << (SH*ci): 1}), ONE), False, ('sinpi', q))
                    self.trig[key] = (c, s)
                cc, ss = self.trig[key]
            C, S = self.sub(self.mul(C, cc), self.mul(S, ss)), self.add(self.mul(S, cc), self.mul(C, ss))
        return C, S
    def multiple(self, c, s, k):
        C, S = RF(ONE), RF({})
        for _ in range(k):
            C, S = self.sub(self.mul(C, c), self.mul(S, s)), self.add(self.mul(S, c), self.mul(C, s))
        return C, S
    def clear(self):
        self.memo.clear(); self.trig.clear(); self.sqrts = []; self.funs = []
        # variable order and rules restart; names are kept unique
        keep = [n for n in self.vars if n in self.inputnames]
        self.vars = {}; self.names = []; self.rules = {}; self.facs = []; self.fackey = {}; self.pos = set(); self.nonneg = set()
        self.angleatoms = {}; self.defs = {}; self.assumed = {}; self.assumed_polys = {}
        self.pmemo = {}; self.ptrig = {}
        for n in keep: self.idx(n)
    inputnames = frozenset()

    def unit_trig(self, base, u):
        key = (base, u)
        if key in self.trig: return self.trig[key]
        if key in self.ptrig: self.pathuses += 1; return self.ptrig[key]
        uses = self.pathuses
        m, dk = base
        res = None
        # a single inverse-trig atom?
        if not dk:
            for i, (op, args) in self.angleatoms.items():
                if m == 1 << (SH*i) and op in ('acos', 'asin', 'atan', 'atan2'):
                    one = RF(ONE)
                    if op == 'acos':
                        c = args[0]; s = self.sqrt(self.sub(one, self.mul(c, c)))
                    elif op == 'asin':
                        s = args[0]; c = self.sqrt(self.sub(one, self.mul(s, s)))
                    elif op == 'atan':
                        c = self.inv(self.sqrt(self.add(one, self.mul(args[0], args[0])))); s = self.mul(args[0], c)
                    else:
                        y, x = args
                        R = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
                        if not R.n: c, s = one, RF({})
                        else: c, s = self.div(x, R), self.div(y, R)
                    if u == 1: res = (c, s)
                    elif u == Fraction(1, 2):
                        half = self.const(Fraction(1, 2))
                        ch = self.sqrt(self.mul(half, self.add(one, c)))
                        sh = self.sqrt(self.mul(half, self.sub(one, c))) if op == 'acos' else self.div(self.mul(half, s), ch)
                        res = (ch, sh)
        if res is None:
            n = len(self.names)
            c = self.newatom('c%d' % n, None, False, ('cos', base, u)); ci = self.idx('c%d' % n)
            s = self.newatom('s%d' % n, (psub(ONE, {2 << (SH*ci): 1}), ONE), False, ('sin', base, u))
            res = (c, s)
        if uses == self.pathuses: self.trig[key] = res
        else: self.ptrig[key] = res
        return res

    # -------------------------------------------------------- lowering of nodes
    def low(self, root):
        return self._low(root)
    def _low(self, n):
        r = self.memo.get(n.id)
        if r is not None: return r
        r = self.pmemo.get(n.id)
        if r is not None: self.pathuses += 1; return r
        u = self.pathuses
        if self.deadline and time.time() > self.deadline: raise TooBig('time')
        r = self._lower(n)
        if u == self.pathuses: self.memo[n.id] = r
        else: self.pmemo[n.id] = r
        return r
    def _lower(self, n):
        op = n.op
        if op == 'const':
            if n.ty == 'real':
                if n.val == 'pi': return RF(self.var('pi'))
                return self.const(n.val)
            if n.ty[0] != 'f': return self.const(D.sval(n))
            c = snap(D.fval(n), n.ty)
            if isinstance(c, tuple):
                if c[0] == 'pi': return RF(pscale(self.var('pi'), norm(c[1])))
                if c[0] == 'ipi': return self.mul(self.const(c[1]), self.inv(RF(self.var('pi'))))
                return self.mul(self.const(c[2]), self.sqrt(self.const(c[1])))
            return self.const(c)
        if op == 'var':
            if n.ty[0] != 'f' and n.ty != 'real': return RF(self.var(n.val))
            return RF(self.var(n.val))
        L = self._low
        if op == 'ite':
            return L(n.args[1]) if self.cond(n.args[0]) else L(n.args[2])
        if op == 'fadd': return self.add(L(n.args[0]), L(n.args[1]))
        if op == 'fsub': return self.sub(L(n.args[0]), L(n.args[1]))
        if op == 'fmul':
            a = L(n.args[0])
            if not a.n: return a
            return self.mul(a, L(n.args[1]))
        if op == 'fdiv':
            a = L(n.args[0]); b = L(n.args[1])
            if not b.n: raise ZeroDivisionError()
            return self.div(a, b)
        if op == 'fneg': a = L(n.args[0]); return RF(pneg(a.n), a.d)
        if op == 'fma': return self.add(self.mul(L(n.args[0]), L(n.args[1])), L(n.args[2]))
        if op == 'rcp':
            b = L(n.args[0])
            if not b.n: raise ZeroDivisionError()
            return self.inv(b)
        if op == 'rsqrt': return self.inv(self.sqrt(L(n.args[0])))
        if op == 'sqrt': return self.sqrt(L(n.args[0]))
        if op == 'fabs': return self.absval(L(n.args[0]))
        if op in ('fpext', 'fptrunc'): return L(n.args[0])
        if op in ('sin', 'cos', 'tan'):
            c, s = self.trigof(L(n.args[0]))
            if op == 'tan':
                if not c.n: raise ZeroDivisionError()
                return self.div(s, c)
            return c if op == 'cos' else s
        if op in ('acos', 'asin', 'atan', 'atan2'):
            args = [L(a) for a in n.args]
            if op in ('acos', 'asin') and isconst(args[0].n) and not args[0].d:
                k = Fraction(args[0].n.get(0, 0)); pi = RF(self.var('pi')); h = self.const(Fraction(1, 2))
                if op == 'acos' and k in (1, 0, -1): return self.mul(pi, self.const({1: 0, 0: Fraction(1, 2), -1: 1}[k]))
                if op == 'asin' and k in (1, 0, -1): return self.mul(pi, self.const(Fraction(int(k), 2)))
            if op in ('atan', 'asin') and not args[0].n: return RF({})
            if op == 'atan2':
                y, x = args
                if not y.n and not x.n: return RF({})
                if not y.n: return RF({}) if self.decide(x, '0+') else RF(self.var('pi'))
                if not x.n: return self.mul(RF(self.var('pi')), self.const(Fraction(1, 2) if self.decide(y, '0+') else Fraction(-1, 2)))
            return self.fun(op, args)
        if op == 'pow':
            a, b = L(n.args[0]), L(n.args[1])
            if isconst(b.n) and not b.d:
                k = Fraction(b.n.get(0, 0))
                if k.denominator == 1 and abs(k) < 20:
                    if k < 0 and not a.n: raise ZeroDivisionError()
                    return self.power(a, int(k))
                if k == Fraction(1, 2): return self.sqrt(a)
            return self.fun('pow', [a, b])
        if op in ('floor', 'ceil', 'ftrunc', 'rint', 'round', 'fmod', 'exp', 'log', 'cbrt', 'exp2', 'hypot'):
            args = [L(a) for a in n.args]
            if op in ('floor', 'ceil', 'ftrunc', 'rint', 'round') and isconst(args[0].n) and not args[0].d:
                k = Fraction(args[0].n.get(0, 0))
                v = {'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc, 'rint': round, 'round': lambda x: math.floor(abs(x)+Fraction(1, 2))*(1 if x >= 0 else -1)}[op](k)
                return self.const(v)
            return self.fun(op, args)
        if op in ('sitofp', 'uitofp'):
            return self.intval(n.args[0])
        if op == 'frombits': return self.frombits(n.args[0])
        if op == 'undef': return RF(self.var('undef %s #%d' % (n.val, n.id)))      # memory nobody wrote: any value
        raise NotReal(op)
    def intval(self, n):
        if n.op == 'const': return self.const(D.sval(n))
        if n.op == 'ite': return self.intval(n.args[1]) if self.cond(n.args[0]) else self.intval(n.args[2])
        if n.op in ('zext', 'sext') and n.args[0].ty == 'i1':
            return self.const((1 if n.op == 'zext' else -1) if self.cond(n.args[0]) else 0)
        if n.op == 'add': return self.add(self.intval(n.args[0]), self.intval(n.args[1]))
        if n.op == 'sub': return self.sub(self.intval(n.args[0]), self.intval(n.args[1]))
        if n.op == 'mul': return self.mul(self.intval(n.args[0]), self.intval(n.args[1]))
        if n.op == 'var': return RF(self.var(n.val))
        if n.op in ('sext', 'zext'): return self.intval(n.args[0])
        if n.op in ('fptosi', 'fptoui'):       # in range: a cast outside it is undefined
            r = self._low(n.args[0])
            if isconst(r.n) and not r.d: return self.const(math.trunc(Fraction(r.n.get(0, 0))))
            return self.truncint(r)
        raise NotReal('int ' + n.op)
    def truncint(self, r): return self.fun('ftrunc', [r])
    def frombits(self, b):
        """bit tricks on floats: sign transfer"""
        if b.op == 'ite': return self.frombits(b.args[1]) if self.cond(b.args[0]) else self.frombits(b.args[2])
        if b.op == 'bits': return self._low(b.args[0])
        if b.op == 'const': return self._low(D.fbits(b.val, 'f32'))
        if b.op in ('or', 'xor', 'and'):
            x, y = b.args
            if b.op in ('and', 'or') and x.op == 'bits' and y.op == 'bits' and self.decide(self.sub(self._low(x.args[0]), self._low(y.args[0])), '0'):
                return self._low(x.args[0])      # tie of a NEON/wasm min/max
            for p, q in ((x, y), (y, x)):
                if p.op == 'signbits':
                    neg = self.decide(self._low(p.args[0]), '-')
                    if b.op == 'xor':
                        v = self.frombits(q)
                        return RF(pneg(v.n), v.d) if neg else v
                    if b.op == 'or':
                        v = self.absval(self.frombits(q)) if neg else self.frombits(q)
                        return RF(pneg(v.n), v.d) if neg else v
                for z in (p,):
                    if z.op == 'ite':
                        t = z.args[1] if self.cond(z.args[0]) else z.args[2]
                        return self.frombits(D.ibin(b.op, t, q))
                if p.op == 'sext' and p.args[0].ty == 'i1':
                    t = D.iconst(-1 if self.cond(p.args[0]) else 0, p.ty)
                    return self.frombits(D.ibin(b.op, t, q))
                if p.op in ('xor', 'or', 'and') and q.op == 'const':
                    pass
        raise NotReal('bits ' + D.show(b, 3))

    def cond(self, c):
        op = c.op
        if op == 'const': return bool(c.val)
        if op == 'not': return not self.cond(c.args[0])
        if op == 'and':
            a, b = c.args
            if not self.cond(a): return False
            return self.cond(b)
        if op == 'or':
            a, b = c.args
            if self.cond(a): return True
            return self.cond(b)
        if op == 'xor': return self.cond(c.args[0]) != self.cond(c.args[1])
        if op == 'ite': return self.cond(c.args[1]) if self.cond(c.args[0]) else self.cond(c.args[2])
        if op == 'funo':
            # NaN cannot occur for defined real values
            return False
        if op in ('folt', 'fole', 'foeq', 'fone', 'fueq'):
            inf = self.infcmp(c)
            if inf is not None: return inf
            d = self.sub(self._low(c.args[0]), self._low(c.args[1]))
            w = {'folt': '-', 'fole': '-0', 'foeq': '0', 'fone': '-+', 'fueq': '0'}[op]
            return self.decide(d, w)
        if op in ('ieq', 'islt'):
            a, b = c.args
            # sign-bit test of a float
            if op == 'islt' and a.op == 'bits' and b.op == 'const' and b.val == 0: return self.decide(self._low(a.args[0]), '-')
            d = self.sub(self.intval(a), self.intval(b))
            return self.decide(d, '0' if op == 'ieq' else '-')
        if op == 'var': 
            return self.decide(RF(self.var(c.val)), '+')
        raise NotReal('cond ' + op)
    def infcmp(self, c):
        a, b = c.args
        def inf(x): return x.op == 'const' and x.ty[0] == 'f' and D.fval(x) in (float('inf'), float('-inf'))
        if inf(a) or inf(b):
            x = D.fval(a) if inf(a) else 0.0
            y = D.fval(b) if inf(b) else 0.0
            return {'folt': x < y, 'fole': x <= y, 'foeq': x == y, 'fone': x != y, 'fueq': x == y}[c.op]
        return None

    # -------------------------------------------------------- text for the solver
    def pname(self, i): return 'v%d' % i
    def ptext(self, p):
        if not p: return '0.0'
        ts = []
        for m, c in p.items():
            fs = []
            i = 0; mm = m
            while mm:
                e = mm & ((1 << SH)-1)
                fs += ['v%d' % i]*e
                mm >>= SH; i += 1
            f = Fraction(c)
            cs = '%d.0' % abs(f.numerator) if f.denominator == 1 else '(/ %d.0 %d.0)' % (abs(f.numerator), f.denominator)
            if f < 0: cs = '(- %s)' % cs
            if not fs: ts.append(cs)
            elif f == 1 and len(fs) == 1: ts.append(fs[0])
            elif f == 1: ts.append('(* %s)' % ' '.join(fs))
            else: ts.append('(* %s %s)' % (cs, ' '.join(fs)))
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
    def pvars(self, p, acc):
        for m in p:
            i = 0
            while m:
                if m & ((1 << SH)-1): acc.add(i)
                m >>= SH; i += 1
        return acc
