"""Boolean/linear lowering of a claim: if-then-else structure is kept, every product of inputs becomes one real variable
(an over-approximation of the product's possible values), and the whole formula goes to the solver in one query.  Facts
about products the formula needs are supplied as lemmas, each proved by the nonlinear procedure first."""
from fractions import Fraction
from . import dag as D, real as R

def RF1(L, nm): return R.RF(L.var(nm))

class Lin(R.Ctx):
    shared = False     # name every if-then-else instead of distributing arithmetic over it
    def __init__(self):
        super().__init__(); self.idx('pi')
        self.lines = []; self.mv = {}; self.tm = {}; self.cm = {}; self.tt = {}; self.leaves = 0; self.k = 0; self.used = set()
    def fresh(self, p): self.k += 1; return '%s%d' % (p, self.k)
    # ---- trees: RF or ('ite', condtext, tree, tree)
    def lift1(self, f, a):
        if isinstance(a, tuple): return self.ite(a[1], self.lift1(f, a[2]), self.lift1(f, a[3]))
        return f(a)
    def lift2(self, f, a, b):
        if isinstance(a, tuple):
            c = a[1]
            if isinstance(b, tuple) and b[1] == c: return self.ite(c, self.lift2(f, a[2], b[2]), self.lift2(f, a[3], b[3]))
            return self.ite(c, self.lift2(f, a[2], b), self.lift2(f, a[3], b))
        if isinstance(b, tuple): return self.ite(b[1], self.lift2(f, a, b[2]), self.lift2(f, a, b[3]))
        return f(a, b)
    def ite(self, c, a, b):
        if c == 'true': return a
        if c == 'false': return b
        if a is b: return a
        self.leaves += 1
        if self.leaves > 60000: raise R.TooBig('ite')
        return ('ite', c, a, b)
    def T(self, n):
        r = self.tm.get(n.id)
        if r is None: r = self.tm[n.id] = self.T_(n)
        return r
    def T_(self, n):
        op = n.op; T = self.T
        if op in ('const', 'var'): return self._lower(n)
        if op == 'ite':
            r = self.ite(self.C(n.args[0]), T(n.args[1]), T(n.args[2]))
            if self.shared and isinstance(r, tuple):
                v = RF1(self, 'ite%d' % n.id); self.lines.append('(assert (= %s (ite %s %s %s)))' % (self.tx(v), r[1], self.tx(r[2]), self.tx(r[3]))); return v
            return r
        if op in ('fadd', 'fsub', 'fmul'):
            f = {'fadd': self.add, 'fsub': self.sub, 'fmul': self.mul}[op]
            return self.lift2(f, T(n.args[0]), T(n.args[1]))
        if op == 'fma': return self.lift2(self.add, self.lift2(self.mul, T(n.args[0]), T(n.args[1])), T(n.args[2]))
        def inv(b):
            if not b.n: raise R.NotReal('division by zero')
            return self.inv(b)
        if op == 'fdiv': return self.lift2(self.mul, T(n.args[0]), self.lift1(inv, T(n.args[1])))
        if op == 'rcp': return self.lift1(inv, T(n.args[0]))
        if op == 'fneg': return self.lift1(lambda a: R.RF(R.pneg(a.n), a.d), T(n.args[0]))
        if op in ('fpext', 'fptrunc'): return T(n.args[0])
        if op == 'fabs':
            a = T(n.args[0]); z = R.RF({}); c = '(< %s 0.0)' % self.tx(a)
            return self.ite(c, self.lift1(lambda a: R.RF(R.pneg(a.n), a.d), a), a)
        if op == 'sqrt': return self.lift1(self.lsqrt, T(n.args[0]))
        if op in ('sitofp', 'uitofp'): return self.I(n.args[0])
        if op == 'frombits':
            b = n.args[0]
            if b.op == 'ite': return self.ite(self.C(b.args[0]), T(D.frombits(b.args[1], n.ty)), T(D.frombits(b.args[2], n.ty)))
            if b.op == 'const': return T(D.fbits(b.val, n.ty))
            if b.op in ('and', 'or') and all(q.op == 'bits' for q in b.args):
                # tie case of a NEON/wasm min/max: equal operands (up to the sign of zero) give that value, otherwise unknown
                x, y = (self.tx(T(q.args[0])) for q in b.args)
                r = R.RF(self.var('tie%d' % n.id)); v = self.tx(r)
                self.lines.append('(assert (=> (= %s %s) (= %s %s)))' % (x, y, v, x))
                return r
        raise R.NotReal('linear ' + op)
    def lsqrt(self, a):
        if not a.n: return a
        if R.isconst(a.n) and not a.d: return self.sqrt(a)
        key = ('lsqrt', frozenset(a.n.items()), frozenset(a.d.items()))
        if key not in self.atoms:
            self.atoms[key] = nm = 'sq%d' % len(self.atoms); i = self.idx(nm); self.nonneg.add(i)
        return R.RF(self.var(self.atoms[key]))
    def I(self, n):
        if n.op == 'const': return self.const(D.sval(n))
        if n.op == 'ite': return self.ite(self.C(n.args[0]), self.I(n.args[1]), self.I(n.args[2]))
        if n.op in ('zext', 'sext') and n.args[0].ty == 'i1': return self.ite(self.C(n.args[0]), self.const(1 if n.op == 'zext' else -1), self.const(0))
        if n.op in ('zext', 'sext', 'trunc'): return self.I(n.args[0])
        if n.op in ('add', 'sub', 'mul'): return self.lift2({'add': self.add, 'sub': self.sub, 'mul': self.mul}[n.op], self.I(n.args[0]), self.I(n.args[1]))
        raise R.NotReal('linear int ' + n.op)
    def C(self, n):
        r = self.cm.get(n.id)
        if r is None:
            r = self.C_(n)
            if len(r) > 40:
                nm = self.fresh('b'); self.lines.append('(define-fun %s () Bool %s)' % (nm, r)); r = nm
            self.cm[n.id] = r
        return r
    def C_(self, n):
        op = n.op; C = self.C
        if op == 'const': return 'true' if n.val else 'false'
        if op == 'not':
            a = C(n.args[0]); return {'true': 'false', 'false': 'true'}.get(a) or '(not %s)' % a
        if op in ('and', 'or', 'xor'): return '(%s %s %s)' % (op, C(n.args[0]), C(n.args[1]))
        if op == 'ite': return '(ite %s %s %s)' % (C(n.args[0]), C(n.args[1]), C(n.args[2]))
        if op == 'funo': return 'false'
        if op in ('folt', 'fole', 'foeq', 'fone', 'fueq'):
            i = self.infcmp(n)
            if i is not None: return 'true' if i else 'false'
            a, b = self.tx(self.T(n.args[0])), self.tx(self.T(n.args[1]))
            if a == b: return 'true' if op in ('fole', 'foeq', 'fueq') else 'false'
            f = {'folt': '(< %s %s)', 'fole': '(<= %s %s)', 'foeq': '(= %s %s)', 'fone': '(not (= %s %s))', 'fueq': '(= %s %s)'}[op]
            return f % (a, b)
        if op in ('ieq', 'islt', 'iult'):
            a, b = n.args
            if op == 'islt' and a.op == 'bits' and b.op == 'const' and b.val == 0: return '(< %s 0.0)' % self.tx(self.T(a.args[0]))
            if op == 'iult': raise R.NotReal('linear iult')
            return ('(= %s %s)' if op == 'ieq' else '(< %s %s)') % (self.tx(self.I(a)), self.tx(self.I(b)))
        raise R.NotReal('linear cond ' + op)
    # ---- text
    def tx(self, t):
        if isinstance(t, tuple):
            r = self.tt.get(id(t))
            if r: return r[0]
            nm = self.fresh('t'); body = '(ite %s %s %s)' % (t[1], self.tx(t[2]), self.tx(t[3]))
            self.lines.append('(define-fun %s () Real %s)' % (nm, body)); self.tt[id(t)] = (nm, t)
            return nm
        ts = []; d = frozenset(t.d.items())
        for m, c in t.n.items():
            c = Fraction(c); cs = '%d.0' % abs(c.numerator) if c.denominator == 1 else '(/ %d.0 %d.0)' % (abs(c.numerator), c.denominator)
            if c < 0: cs = '(- %s)' % cs
            if m == 0 and not d: ts.append(cs); continue
            k = (m, d)
            if k not in self.mv:
                self.mv[k] = nm = self.fresh('m'); self.lines.insert(0, '(declare-const %s Real)' % nm)
                if m and not d and (m & (m-1)) == 0 and ((m.bit_length()-1) % R.SH) == 0 and ((m.bit_length()-1)//R.SH) in self.nonneg: self.lines.append('(assert (>= %s 0.0))' % nm)
                if m == 1 << (R.SH*self.vars['pi']) and not d: self.lines.append('(assert (and (> %s 3.14159265) (< %s 3.14159266)))' % (nm, nm))
            ts.append(self.mv[k] if c == 1 else '(* %s %s)' % (cs, self.mv[k]))
        return '0.0' if not ts else ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
    def names_model(self, m):
        out = {}
        for (mm, d), nm in self.mv.items():
            if d: continue
            if mm and (mm & (mm-1)) == 0 and ((mm.bit_length()-1) % R.SH) == 0 and nm in m: out[self.names[(mm.bit_length()-1)//R.SH]] = m[nm]
        return out

def prove(prover, cl, lemmas):
    kind, a, b, label = cl
    L = Lin(); L.shared = prover.s.lin == 'shared'
    try:
        asm = [L.C(x) for x in prover.bassume] + [L.C(x) for x in lemmas]
        goal = '(not (= %s %s))' % (L.tx(L.T(a)), L.tx(L.T(b))) if kind == 'eq' else '(not %s)' % L.C(a)
    except R.TooBig: return ('inconclusive', 'expression too large')
    except R.NotReal as e: return ('inconclusive', 'not encodable: %s' % e)
    txt = '\n'.join(L.lines) + '\n' + '\n'.join('(assert %s)' % x for x in asm) + '\n(assert %s)' % goal
    v, m = prover.z3.check(txt, min(60, max(5, prover.limit)), None, sorted(L.mv.values()))
    prover.npaths += 1
    if v == 'unsat': return ('proven', 'linear')
    if v == 'sat': return ('cex', L.names_model(m))
    return ('inconclusive', 'solver: unknown')
