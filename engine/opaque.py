"""Canonical-form lowering for long branch-free numeric code (noise): every condition is a 0/1 indicator atom of a canonical sign
test, every floor/remainder an integer atom of its canonical argument reduced modulo what is integral, every named intermediate
(hint) or large factor one atom of its canonical polynomial.  Conditions over few atoms are decided by the solver under the
atoms' facts; the remaining difference of the two sides is one solver query over the atoms."""
from fractions import Fraction
import math, time
from . import dag as D, real as R

class Op(R.Ctx):
    def __init__(self, z3, cut=0):
        super().__init__(); self.z3 = z3; self.cutat = cut; self.ints = set(); self.facts = {}; self.keys = {}; self.cuts = {}; self.inds = {}; self.nq = 0; self.linmod = {}; self.cutdef = {}
        self.idx('pi')
    # ---------------------------------------------------------------- atoms by key
    def atom(self, kind, key, integer=False, facts=None, idem=False):
        k = (kind, key)
        if k not in self.keys:
            nm = '%s~%d' % (kind, len(self.names)); i = self.idx(nm); self.keys[k] = i
            if integer: self.ints.add(i)
            if idem: self.rules[i] = ({1 << (R.SH*i): 1}, R.ONE)
            if facts: self.facts[i] = facts(i)
        return R.RF({1 << (R.SH*self.keys[k]): 1})
    def rkey(self, r): return (R.pkey(r.n), frozenset((R.pkey(self.facs[f]), e) for f, e in r.d.items()))
    def isint(self, m):
        i = 0
        while m:
            if m & 255 and i not in self.ints: return False
            m >>= R.SH; i += 1
        return True
    def floor(self, r):
        r = self.unname(r)
        if r.d: return self.atom('floor', self.rkey(r), True)
        I = {}; Q = {}; allint = True
        for m, c in r.n.items():
            c = Fraction(c)
            if self.isint(m):
                k = math.floor(c)
                if k: I[m] = k
                if c - k: Q[m] = R.norm(c-k)
            else: Q[m] = c if c.denominator > 1 else int(c); allint = False
        if not Q: return R.RF(I)
        if allint:
            dn = 1
            for c in Q.values(): dn = dn*Fraction(c).denominator//math.gcd(dn, Fraction(c).denominator)
            if R.isconst(Q): return R.RF(I)
            N = self.modsub(Q, dn)
            if R.isconst(N): return self.sub(self.add(R.RF(I), R.RF(Q)), R.RF(N))
            G = self.atom('mod', (dn, R.pkey(N)), True, lambda i: '(and (>= v%d 0.0) (<= v%d %d.0))' % (i, i, dn-1))
            if len(N) <= 2 and all(m == 0 or (m & (m-1)) == 0 for m in N): self.linmod[self.onevar(G.n)] = (dn, {m: int(Fraction(c)*dn) for m, c in N.items()})
            return self.sub(self.add(R.RF(I), R.RF(Q)), R.RF(R.pscale(G.n, Fraction(1, dn))))
        v = self.solve1(Q, '(and (<= 0.0 %s) (< %s 1.0))')
        if v is True: return R.RF(I)
        t = self.ptext(Q)
        F = self.atom('floor', R.pkey(Q), True, lambda i: (Q, '(and (<= v%d %s) (< %s (+ v%d 1.0)))' % (i, t, t, i)))
        return self.add(R.RF(I), F)
    def modsub(self, Q, dn):
        """remainders of plain integers inside a remainder of the same modulus are replaced by those integers"""
        for i, (d2, P) in self.linmod.items():
            if d2 % dn: continue
            sh = R.SH*i
            if not any((m >> sh) & 255 for m in Q): continue
            out = {}
            for m, c in Q.items():
                e = (m >> sh) & 255; t = {m - (e << sh): c}
                for _ in range(e): t = R.pmul(t, P)
                out = R.padd(out, t)
            Q = {}
            for m, c in out.items():
                c = Fraction(c); c -= math.floor(c)
                if c: Q[m] = R.norm(c)
        return Q
    def trunc(self, r):
        r = self.unname(r)
        if R.isconst(r.n) and not r.d: return self.const(math.trunc(Fraction(r.n.get(0, 0))))
        if not r.n: return r
        k, q = R.primitive(r.n); s = 1 if k > 0 else -1
        a = self.atom('trunc', self.rkey(R.RF(R.pscale(r.n, s), r.d)), True)
        return R.RF(R.pscale(a.n, s))
    def absval(self, r):
        r = self.unname(r)
        if not r.n: return r
        if R.isconst(r.n) and not r.d: return self.const(abs(Fraction(r.n[0])))
        if r.d: return self.atom('abs', self.rkey(r))
        k, q = R.primitive(r.n); t = self.ptext(q)
        a = self.atom('abs', R.pkey(q), False, lambda i: (q, '(and (>= v%d 0.0) (or (= v%d %s) (= v%d (- %s))))' % (i, i, t, i, t)))
        return R.RF(R.pscale(a.n, abs(k)))
    def sqrt(self, r):
        if not r.n: return r
        if R.isconst(r.n) and not r.d: return super().sqrt(r)
        Q = R.ONE
        for f, e in r.d.items():
            for _ in range(e): Q = R.pmul(Q, self.facs[f])
        a = self.atom('sqrt', self.rkey(r)); i = self.onevar(a.n); self.rules.setdefault(i, (r.n, Q)); self.nonneg.add(i)
        return a
    def trigof(self, r): return self.atom('cos', self.rkey(r)), self.atom('sin', self.rkey(r))
    def fun(self, op, args): return self.atom(op, tuple(self.rkey(a) for a in args))
    def decide(self, r, want): raise R.NotReal('decide')
    # ---------------------------------------------------------------- conditions as 0/1 values
    def neg(self, a): return self.sub(R.RF(R.ONE), a)
    def signind(self, r, want):
        """indicator of sign(r) in want, want one of '-', '+', '0'"""
        r = self.unname(r); q = r.n
        for f, e in r.d.items():
            if e & 1: q = self.reduce(R.pmul(q, self.facs[f]), {}).n
        if not q: return self.const(1 if want == '0' else 0)
        k, q = R.primitive(q)
        if want != '0' and k < 0: want = '-' if want == '+' else '+'
        if R.isconst(q): return self.const(1 if want == '+' else 0)
        if want == '0': return self.sub(self.neg(self.signind(R.RF(q), '-')), self.signind(R.RF(q), '+'))
        key = (want, R.pkey(q))
        if key not in self.inds:
            v = self.solve1(q, '(< %s 0.0)' if want == '-' else '(> %s 0.0)')
            t = self.ptext(q); op = '<' if want == '-' else '>'
            self.inds[key] = self.const(1 if v else 0) if v is not None else self.atom('ind', key, True, lambda i: (q, '(and (or (= v%d 0.0) (= v%d 1.0)) (= (= v%d 1.0) (%s %s 0.0)))' % (i, i, i, op, t)), True)
        return self.inds[key]
    def ind(self, c):
        op = c.op
        if op == 'const': return self.const(1 if c.val else 0)
        if op == 'not': return self.neg(self.ind(c.args[0]))
        if op == 'and': return self.mul(self.ind(c.args[0]), self.ind(c.args[1]))
        if op == 'or': a, b = (self.ind(x) for x in c.args); return self.sub(self.add(a, b), self.mul(a, b))
        if op == 'xor': a, b = (self.ind(x) for x in c.args); return self.sub(self.add(a, b), self.mul(self.const(2), self.mul(a, b)))
        if op == 'ite': a, x, y = (self.ind(x) for x in c.args); return self.add(y, self.mul(a, self.sub(x, y)))
        if op == 'funo': return R.RF({})
        if op in ('folt', 'fole', 'foeq', 'fone', 'fueq'):
            inf = self.infcmp(c)
            if inf is not None: return self.const(1 if inf else 0)
            d = self.sub(self._low(c.args[0]), self._low(c.args[1]))
            if op == 'folt': return self.signind(d, '-')
            if op == 'fole': return self.neg(self.signind(d, '+'))
            z = self.signind(d, '0')
            return self.neg(z) if op == 'fone' else z
        if op in ('ieq', 'islt'):
            a, b = c.args
            if op == 'islt' and a.op == 'bits' and b.op == 'const' and b.val == 0: return self.signind(self._low(a.args[0]), '-')
            d = self.sub(self.intval(a), self.intval(b))
            return self.signind(d, '0' if op == 'ieq' else '-')
        if op == 'var': return self.atom('bool', c.val, True, None, True)
        raise R.NotReal('cond ' + op)
    def cond(self, c):
        r = self.ind(c)
        if R.isconst(r.n) and not r.d: return bool(r.n.get(0, 0))
        raise R.NotReal('open condition')
    def saturate(self, c, a, b):
        """minimum/maximum of two values whose order is known up to equality"""
        d = self.sub(a, b)
        if d.d or c.d or not d.n: return None
        d = self.unname(d)
        if d.d: return None
        q = R.primitive(d.n)[1]; qk = R.pkey(q)
        for want in '+-':
            K = self.inds.get((want, qk))
            if K is None or R.isconst(K.n): continue
            neg = self.same(c, self.neg(K))
            if not neg and not self.same(c, K): continue
            for sg, fmt in (('+', '(>= %s 0.0)'), ('-', '(<= %s 0.0)')):
                if self.solve1(q, fmt) is True: return a if (sg == want) != neg else b
        return None
    def solve1(self, q, fmt):
        """decide a fact about a small polynomial: True / False / None"""
        for i, P in self.cutdef.items():
            sh = R.SH*i
            if len(q) <= 8 and len(P) <= 8 and any((m >> sh) & 255 == 1 for m in q) and not any((m >> sh) & 254 for m in q):
                out = {}
                for m, c in q.items(): out = R.padd(out, R.pmul({m - (1 << sh): c}, P) if (m >> sh) & 255 else {m: c})
                q = out
        vs = self.pvars(q, set())
        if len(vs) > 4 or len(q) > 40: return None
        if not any(i in self.facts or i in self.ints for i in vs): return None
        decl, asm = self.facttext(vs)
        if decl is None: return None
        t = fmt.replace('%s', self.ptext(q))
        self.nq += 2
        if self.z3.check(decl + asm + '(assert (not %s))' % t, 2)[0] == 'unsat': return True
        if self.z3.check(decl + asm + '(assert %s)' % t, 2)[0] == 'unsat': return False
        return None
    def facttext(self, vs, cap=12):
        seen = set(); todo = list(vs); out = []
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            if len(seen) > cap: return None, None
            f = self.facts.get(i)
            if f:
                if isinstance(f, tuple): todo += list(self.pvars(f[0], set())); out.append(f[1])
                else: out.append(f)
        return ''.join('(declare-const v%d Real)' % i for i in sorted(seen)), ''.join('(assert %s)' % f for f in out)
    # ---------------------------------------------------------------- lowering
    def cut(self, r):
        if r.d or len(r.n) < 2: return r
        k, q = R.primitive(r.n); a = self.cuts.get(R.pkey(q))
        return r if a is None else R.RF(R.pscale(a.n, R.norm(Fraction(k))))
    def name(self, r):
        """register the value as one atom"""
        if r.d or len(r.n) < 3: return r
        k, q = R.primitive(r.n); key = R.pkey(q)
        if key not in self.cuts:
            t = self.ptext(q)
            self.cuts[key] = self.atom('cut', key, all(self.isint(m) for m in q), (lambda i: (q, '(= v%d %s)' % (i, t))) if len(q) <= 12 else None)
            self.cutdef[self.onevar(self.cuts[key].n)] = q
        return self.cut(r)
    def unname(self, r):
        if len(r.n) != 1: return r
        (m, c), = r.n.items()
        i = self.onevar(r.n) if m else None
        return R.RF(R.pscale(self.cutdef[i], c), r.d) if i in self.cutdef and m == 1 << (R.SH*i) else r
    def _lower(self, n):
        r = self._lower1(n)
        return self.cut(r) if self.cuts else r
    def arg(self, n):
        r = self._low(n)
        return self.name(r) if self.cutat and len(r.n) > self.cutat else r
    def _lower1(self, n):
        op = n.op; L = self._low
        if op == 'const' and n.ty in ('f32', 'f64'):
            v = D.fval(n)
            if v != v or v in (float('inf'), float('-inf')): raise R.NotReal('non-finite constant')
            f = Fraction(v); q = f.limit_denominator(999)
            return self.const(q if q and D.fval(D.fconst(float(q), n.ty)) == v else f)
        if op == 'ite':
            c = self.ind(n.args[0])
            if R.isconst(c.n) and not c.d: return L(n.args[1]) if c.n else L(n.args[2])
            a, b = L(n.args[1]), L(n.args[2])
            t = self.saturate(c, a, b)
            if t is not None: return t
            return self.add(b, self.mul(c, self.sub(a, b)))
        if op == 'fmul':
            a = self.arg(n.args[0]); b = self.arg(n.args[1])
            return self.mul(a, b)
        if op == 'floor': return self.floor(L(n.args[0]))
        if op == 'ceil': x = L(n.args[0]); r = self.floor(R.RF(R.pneg(x.n), x.d)); return R.RF(R.pneg(r.n), r.d)
        if op == 'ftrunc': return self.trunc(L(n.args[0]))
        if op == 'fmod':
            a, b = L(n.args[0]), L(n.args[1])
            if not b.n: raise R.NotReal('fmod by zero')
            return self.sub(a, self.mul(b, self.trunc(self.div(a, b))))
        return super()._lower(n)
    def truncint(self, r): return self.trunc(r)
    def intval(self, n):
        if n.op == 'ite' or (n.op in ('zext', 'sext') and n.args[0].ty == 'i1'):
            if n.op == 'ite':
                c = self.ind(n.args[0]); a, b = self.intval(n.args[1]), self.intval(n.args[2]); return self.add(b, self.mul(c, self.sub(a, b)))
            r = self.ind(n.args[0]); return r if n.op == 'zext' else R.RF(R.pneg(r.n), r.d)
        return super().intval(n)

def prove(prover, cl):
    kind, a, b, label = cl; s = prover.s
    c = getattr(prover, 'opctx', None)
    try:
        if c is None:
            c = Op(prover.z3, getattr(s, 'cutat', 0)); prover.opctx = c
            for nm in sorted(prover.inames()): c.idx(nm)
            for nm in getattr(s, 'ints', ()): c.ints.add(c.idx(nm))
            for nm, (lo, hi) in getattr(s, 'ranges', {}).items():
                i = c.idx(nm); f = lambda v: '(/ %d.0 %d.0)' % (Fraction(v).numerator, Fraction(v).denominator)
                c.facts[i] = '(and (<= %s v%d) (< v%d %s))' % (f(lo), i, i, f(hi))
            c.deadline = time.time() + prover.limit
            for h in prover.bhints: c.memo[h.id] = c.name(c._low(h))
        c.deadline = time.time() + prover.limit
        q0 = c.nq
        if kind == 'eq':
            d = c.sub(c._low(a), c._low(b)); prover.npaths += 1 + c.nq - q0
            vs = c.pvars(d.n, set())
            txt = '(assert (not (= %s 0.0)))' % c.ptext(d.n)
        else:
            d = c.ind(a); prover.npaths += 1 + c.nq - q0; vs = c.pvars(d.n, set()); txt = '(assert (= %s 0.0))' % c.ptext(d.n)
        if d.d: return ('inconclusive', 'denominators')
        decl, asm = c.facttext(vs, 40)
        if decl is None: return ('inconclusive', 'expression too large')
        v, m = prover.z3.check(decl + asm + txt, min(10, prover.limit))
        if v == 'unsat': return ('proven', 'canonical form')
        if v == 'sat' and not vs: return ('cex', {})
        return ('inconclusive', 'canonical forms differ' if v == 'sat' else 'solver: unknown')
    except R.TooBig as e: return ('inconclusive', 'expression too large %s' % e)
    except (R.NotReal, ZeroDivisionError, R.NeedSplit) as e: return ('inconclusive', 'not encodable: %s' % e)
    except RecursionError: return ('inconclusive', 'recursion')
