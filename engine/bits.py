"""Bit-precise decisions: the DAG is lowered to SMT-LIB floating point and bit-vectors and every claim is one solver query
over all bit patterns of the inputs."""
import random, struct, time, math
import numpy as np
from . import dag as D, prove as V, concrete, expr as E
from .expr import X, P, tobool

# ---------------------------------------------------------------- expressions
class F(X):
    """IEEE single expression"""
    __slots__ = ()
    def _b(self, o, op, sw=False):
        a, b = self.n, fn(o)
        if sw: a, b = b, a
        return F(D.fbin(op, a, b))
    def __neg__(s): return F(D.fneg(s.n))
    def __lt__(s, o): return P(D.fcmp('olt', s.n, fn(o)))
    def __le__(s, o): return P(D.fcmp('ole', s.n, fn(o)))
    def __gt__(s, o): return P(D.fcmp('ogt', s.n, fn(o)))
    def __ge__(s, o): return P(D.fcmp('oge', s.n, fn(o)))
    def eq(s, o): return P(D.fcmp('oeq', s.n, fn(o)))
    def ne(s, o): return P(D.fcmp('une', s.n, fn(o)))
    def isnan(s): return P(D.fcmp('uno', s.n, s.n))
    def isinf(s): return F(D.fabs_(s.n)).eq(F(D.fbits(0x7f800000)))
    def bits(s): return I(D.tobits(s.n))
    def abs(s): return F(D.fabs_(s.n))
    def zero(s): return s.eq(F(D.fconst(0.0)))
def fn(o):
    if isinstance(o, X): return o.n
    if isinstance(o, D.Node): return o
    return D.fconst(float(o))
def f(o): return o if isinstance(o, F) else F(fn(o))
def call1(op, a): return F(D.mk(op, 'f32', (fn(a),)))
class I:
    """machine integer expression"""
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def _b(s, o, op, sw=False):
        a, b = s.n, inn(o, s.n.ty)
        if sw: a, b = b, a
        return I(D.ibin(op, a, b))
    def __add__(s, o): return s._b(o, 'add')
    def __radd__(s, o): return s._b(o, 'add', True)
    def __sub__(s, o): return s._b(o, 'sub')
    def __rsub__(s, o): return s._b(o, 'sub', True)
    def __mul__(s, o): return s._b(o, 'mul')
    def __rmul__(s, o): return s._b(o, 'mul', True)
    def __and__(s, o): return s._b(o, 'and')
    def sdiv(s, o): return s._b(o, 'sdiv')
    def srem(s, o): return s._b(o, 'srem')
    def __neg__(s): return I(D.ibin('sub', D.iconst(0, s.n.ty), s.n))
    def __lt__(s, o): return P(D.icmp('slt', s.n, inn(o, s.n.ty)))
    def __le__(s, o): return P(D.icmp('sle', s.n, inn(o, s.n.ty)))
    def __gt__(s, o): return P(D.icmp('sgt', s.n, inn(o, s.n.ty)))
    def __ge__(s, o): return P(D.icmp('sge', s.n, inn(o, s.n.ty)))
    def eq(s, o): return P(D.icmp('eq', s.n, inn(o, s.n.ty)))
    def ne(s, o): return P(D.icmp('ne', s.n, inn(o, s.n.ty)))
    def wide(s): return I(D.sext(s.n, 'i64'))
    def low(s): return I(D.trunc(s.n, 'i32'))
    def tof(s): return F(D.mk('sitofp', 'f32', (s.n,)))
    def __repr__(s): return repr(s.n)
def inn(o, ty='i32'):
    if isinstance(o, I): return o.n
    if isinstance(o, D.Node): return o
    return D.iconst(int(o), ty)
def where(c, a, b):
    if isinstance(a, X) or isinstance(b, X): return F(D.ite(tobool(c), fn(a), fn(b)))
    ty = a.n.ty if isinstance(a, I) else b.n.ty if isinstance(b, I) else 'i32'
    return I(D.ite(tobool(c), inn(a, ty), inn(b, ty)))
def fmin(a, b): return where(f(a) < b, a, b)
def fmax(a, b): return where(f(a) > b, a, b)

# ---------------------------------------------------------------- lowering
SORT = {'f32': (8, 24, 32), 'f64': (11, 53, 64)}
def fsort(ty): return '(_ FloatingPoint %d %d)' % SORT[ty][:2]
def tofp(ty): return '(_ to_fp %d %d)' % SORT[ty][:2]
class Low:
    def __init__(self, abstract=False):
        self.abstract = abstract; self.lines = []; self.fm = {}; self.bm = {}; self.k = 0; self.ufs = {}; self.inputs = {}
    def name(self, sort, body):
        self.k += 1; nm = 'n%d' % self.k
        self.lines.append('(define-fun %s () %s %s)' % (nm, sort, body)); return nm
    def fresh(self, sort):
        self.k += 1; nm = 'x%d' % self.k
        self.lines.append('(declare-const %s %s)' % (nm, sort)); return nm
    def exact(self, n):
        """is the bit pattern of this float node determined exactly by integer operations"""
        if n.op in ('const', 'var', 'frombits', 'undef'): return True
        if n.op in ('fneg', 'fabs'): return self.exact(n.args[0])
        if n.op == 'ite': return self.exact(n.args[1]) and self.exact(n.args[2])
        return False
    def fbv(self, n):
        """bits of a float node"""
        r = self.bm.get(n.id)
        if r is None: r = self.bm[n.id] = self.fbv_(n)
        return r
    def fbv_(self, n):
        w = SORT[n.ty][2]
        if n.op == 'const': return '(_ bv%d %d)' % (n.val, w)
        if n.op == 'var': return self.input(n, w)
        if n.op == 'undef': return self.fresh('(_ BitVec %d)' % w)
        if n.op == 'frombits': return self.bv(n.args[0])
        if self.exact(n):
            S = '(_ BitVec %d)' % w
            if n.op == 'fneg': return self.name(S, '(bvxor %s (_ bv%d %d))' % (self.fbv(n.args[0]), 1 << (w-1), w))
            if n.op == 'fabs': return self.name(S, '(bvand %s (_ bv%d %d))' % (self.fbv(n.args[0]), (1 << (w-1))-1, w))
            if n.op == 'ite': return self.name(S, '(ite %s %s %s)' % (self.b(n.args[0]), self.fbv(n.args[1]), self.fbv(n.args[2])))
        x = self.fresh('(_ BitVec %d)' % w)
        self.lines.append('(assert (= (%s %s) %s))' % (tofp(n.ty), x, self.fp(n)))
        return x
    def input(self, n, w):
        nm = self.inputs.get((n.val, n.ty))
        if nm is None:
            nm = self.inputs[(n.val, n.ty)] = 'i%d' % len(self.inputs)
            self.lines.insert(0, '(declare-const %s (_ BitVec %d))' % (nm, w))
        return nm
    def fp(self, n):
        r = self.fm.get(n.id)
        if r is None: r = self.fm[n.id] = self.fp_(n)
        return r
    def fp_(self, n):
        op = n.op; ty = n.ty; S = fsort(ty); A = n.args
        if self.exact(n): return self.name(S, '(%s %s)' % (tofp(ty), self.fbv(n)))
        if self.abstract and op in ('fadd', 'fsub', 'fmul'):
            # over-approximation: some function of the operands' values (signed zeros alike), result's zero sign free
            u = self.uf('abs_' + op, n); r = self.fresh(S); v = self.name(S, '(%s %s)' % (u, ' '.join(self.name(fsort(a.ty), '(let ((v %s)) (ite (fp.isZero v) (_ +zero %d %d) v))' % ((self.fp(a),) + SORT[a.ty][:2])) for a in A)))
            self.lines.append('(assert (or (fp.eq %s %s) (and (fp.isNaN %s) (fp.isNaN %s))))' % (r, v, r, v)); return r
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.name(S, '(fp.%s RNE %s %s)' % (op[1:], self.fp(A[0]), self.fp(A[1])))
        if op == 'fneg': return self.name(S, '(fp.neg %s)' % self.fp(A[0]))
        if op == 'fabs': return self.name(S, '(fp.abs %s)' % self.fp(A[0]))
        if op == 'sqrt': return self.name(S, '(fp.sqrt RNE %s)' % self.fp(A[0]))
        if op == 'fma': return self.name(S, '(fp.fma RNE %s %s %s)' % tuple(self.fp(a) for a in A))
        if op in ('floor', 'ceil', 'ftrunc', 'rint', 'round'):
            return self.name(S, '(fp.roundToIntegral %s %s)' % ({'floor': 'RTN', 'ceil': 'RTP', 'ftrunc': 'RTZ', 'rint': 'RNE', 'round': 'RNA'}[op], self.fp(A[0])))
        if op in ('fpext', 'fptrunc'): return self.name(S, '(%s RNE %s)' % (tofp(ty), self.fp(A[0])))
        if op == 'sitofp': return self.name(S, '(%s RNE %s)' % (tofp(ty), self.bv(A[0])))
        if op == 'uitofp': return self.name(S, '((_ to_fp_unsigned %d %d) RNE %s)' % (SORT[ty][:2] + (self.bv(A[0]),)))
        if op == 'ite': return self.name(S, '(ite %s %s %s)' % (self.b(A[0]), self.fp(A[1]), self.fp(A[2])))
        # library functions: uninterpreted
        return self.name(S, '(%s %s)' % (self.uf(op, n), ' '.join(self.fp(a) for a in A)))
    def uf(self, op, n):
        key = (op, n.ty) + tuple(a.ty for a in n.args)
        if key not in self.ufs:
            self.ufs[key] = 'uf_%s_%d' % (op, len(self.ufs))
            self.lines.insert(0, '(declare-fun %s (%s) %s)' % (self.ufs[key], ' '.join(fsort(a.ty) for a in n.args), fsort(n.ty)))
        return self.ufs[key]
    def bv(self, n):
        r = self.bm.get(n.id)
        if r is None: r = self.bm[n.id] = self.bv_(n)
        return r
    def bv_(self, n):
        op = n.op; A = n.args; w = D.bits_of(n.ty); S = '(_ BitVec %d)' % w
        if op == 'const': return '(_ bv%d %d)' % (n.val, w)
        if op == 'var': return self.input(n, w)
        if op == 'undef': return self.fresh(S)
        if op == 'ite': return self.name(S, '(ite %s %s %s)' % (self.b(A[0]), self.bv(A[1]), self.bv(A[2])))
        if op == 'bits': return self.fbv(A[0])
        if op == 'signbits': return self.name(S, '(bvand %s (_ bv%d %d))' % (self.fbv(A[0]), 1 << (w-1), w))
        m = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'and': 'bvand', 'or': 'bvor', 'xor': 'bvxor', 'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr',
             'sdiv': 'bvsdiv', 'srem': 'bvsrem', 'udiv': 'bvudiv', 'urem': 'bvurem'}.get(op)
        if m: return self.name(S, '(%s %s %s)' % (m, self.bv(A[0]), self.bv(A[1])))
        if op in ('zext', 'sext'):
            if A[0].ty == 'i1': return self.name(S, '(ite %s (_ bv%d %d) (_ bv0 %d))' % (self.b(A[0]), 1 if op == 'zext' else (1 << w)-1, w, w))
            return self.name(S, '((_ %s %d) %s)' % ('zero_extend' if op == 'zext' else 'sign_extend', w-D.bits_of(A[0].ty), self.bv(A[0])))
        if op == 'slice': return self.name(S, '((_ extract %d %d) %s)' % (n.val+w-1, n.val, self.bv(A[0])))
        if op == 'concat': return self.name(S, '(concat %s)' % ' '.join((self.bv(a) if a.ty != 'i1' else '(ite %s #b1 #b0)' % self.b(a)) for a in reversed(A)))
        if op == 'fptosi': return self.name(S, '((_ fp.to_sbv %d) RTZ %s)' % (w, self.fp(A[0])))
        if op == 'fptoui': return self.name(S, '((_ fp.to_ubv %d) RTZ %s)' % (w, self.fp(A[0])))
        raise V.symex.Unsupported('bits ' + op)
    def b(self, n):
        key = ('b', n.id); r = self.bm.get(key)
        if r is None: r = self.bm[key] = self.b_(n)
        return r
    def b_(self, n):
        op = n.op; A = n.args
        if op == 'const': return 'true' if n.val else 'false'
        if op == 'var': return '(= %s #b1)' % self.input(n, 1)
        if op == 'undef': return self.fresh('Bool')
        if op == 'not': return '(not %s)' % self.b(A[0])
        if op in ('and', 'or', 'xor'): return self.name('Bool', '(%s %s %s)' % (op, self.b(A[0]), self.b(A[1])))
        if op == 'ite': return self.name('Bool', '(ite %s %s %s)' % tuple(self.b(a) for a in A))
        if op == 'slice': return '(= ((_ extract %d %d) %s) #b1)' % (n.val, n.val, self.bv(A[0]))
        if op in ('ieq', 'islt', 'iult'):
            return self.name('Bool', '(%s %s %s)' % ({'ieq': '=', 'islt': 'bvslt', 'iult': 'bvult'}[op], self.bv(A[0]), self.bv(A[1])))
        if op[0] == 'f' and len(A) == 2:
            x, y = self.fp(A[0]), self.fp(A[1]); un = '(or (fp.isNaN %s) (fp.isNaN %s))' % (x, y)
            t = {'folt': '(fp.lt %s %s)' % (x, y), 'fole': '(fp.leq %s %s)' % (x, y), 'foeq': '(fp.eq %s %s)' % (x, y),
                 'fone': '(and (not (fp.eq %s %s)) (not %s))' % (x, y, un), 'fueq': '(or (fp.eq %s %s) %s)' % (x, y, un), 'funo': un}[op]
            return self.name('Bool', t)
        raise V.symex.Unsupported('bool ' + op)

# ---------------------------------------------------------------- specification context
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.75, -7.25, float('inf'), float('-inf'), float('nan'), 1e-45, -1e-45, 1.17549435e-38, 3.4028235e38, -3.4028235e38,
           1e-5, 1.00001e-5, 0.99999e-5, 1.0000001, 0.99999994, 16777216.0, 8388607.5, -8388608.5, 2147483648.0, 1e10, 1e-7, 1e-8]
def fval(rng):
    m = rng.random()
    if m < .4: return float(np.float32(rng.choice(SPECIAL)))
    if m < .7: return float(np.float32(rng.randint(-9, 9)/4))
    if m < .85: return float(np.float32(rng.uniform(-3, 3)))
    return struct.unpack('<f', struct.pack('<I', rng.getrandbits(32)))[0]
class BSpec(V.Spec):
    wf = F; wi = I
    def __init__(self, *a):
        super().__init__(*a); self.soft = []
    def vec(self, name, n, gen=None):
        ns = ['%s[%d]' % (name, i) for i in range(n)]
        self.samplers.append(gen(ns) if gen else lambda rng: same_often(rng, ns))
        return [F(D.var(s)) for s in ns]
    def scalar(self, name, gen=None):
        self.samplers.append(gen([name]) if gen else (lambda rng: {name: fval(rng)}))
        return F(D.var(name))
    def ivec(self, name, n, gen=None):
        ns = ['%s[%d]' % (name, i) for i in range(n)]
        self.samplers.append((gen or V.genint)(ns))
        return [I(D.var(s, 'i32')) for s in ns]
    def iscalar(self, name, gen=None):
        self.samplers.append((gen or V.genint)([name])); return I(D.var(name, 'i32'))
    def assume_soft(self, p):
        """outside this condition the property says nothing; only used when the claim does not hold without it"""
        self.soft.append(tobool(p))
    def num(self, a, b, label=''):
        """numerically equal (signed zeros alike) or both NaN"""
        if isinstance(a, (list, tuple)):
            assert len(a) == len(b)
            for i, (p, q) in enumerate(zip(a, b)): self.num(p, q, '%s[%d]' % (label, i))
            return
        self.claims.append(('num', E.N(a), E.N(f(b)), label))
    def eq(self, a, b, label=''):
        if not isinstance(a, (list, tuple)):
            if isinstance(a, F): b = f(b)
            elif isinstance(a, I): b = I(inn(b, a.n.ty))
        super().eq(a, b, label)
def same_often(rng, ns):
    v = fval(rng)
    if rng.random() < .2: return {n: v for n in ns}
    d = {n: fval(rng) for n in ns}
    if rng.random() < .4:
        k = rng.choice(ns); d = {n: (d[n] if n == k else float(np.float32(rng.randint(-3, 3)))) for n in ns}
    return d

def claimfail(ev, cl):
    """numpy bool: claim false"""
    kind, a, b, label = cl
    with np.errstate(all='ignore'):
        if kind == 'holds': return ~ev([a])[0].astype(bool)
        x, y = ev([a, b])
        if a.ty[0] != 'f': return x != y
        nan = np.isnan(x) & np.isnan(y)
        if kind == 'num': return ~((x == y) | nan)
        return ~((x.view(np.uint32) == y.view(np.uint32)) | nan) if a.ty == 'f32' else ~((x == y) | nan)
def badfail(spec, ev):
    with np.errstate(all='ignore'):
        ok = np.ones(ev.n, bool)
        for t in spec: ok &= ev([t])[0].astype(bool)
    return ok

class BProver(V.Prover):
    def setup(self, extra=None, submap=None): pass
    def bindall(self):
        super().bindall(); self.bsoft = D.subst(self.s.soft, self.s.bind)
    def text(self, cl, soft, abstract=False):
        kind, a, b, label = cl; L = Low(abstract)
        asm = [L.b(t) for t in self.bassume + (self.bsoft if soft else [])]
        if kind == 'holds': goal = '(not %s)' % L.b(a)
        elif a.ty == 'i1': goal = '(xor %s %s)' % (L.b(a), L.b(b))
        elif a.ty[0] != 'f': goal = '(not (= %s %s))' % (L.bv(a), L.bv(b))
        elif kind == 'num':
            x, y = L.fp(a), L.fp(b); goal = '(not (or (fp.eq %s %s) (and (fp.isNaN %s) (fp.isNaN %s))))' % (x, y, x, y)
        else: goal = '(not (= %s %s))' % (L.fp(a), L.fp(b))
        return L, '\n'.join(L.lines + ['(assert %s)' % t for t in asm] + ['(assert %s)' % goal])
    def prove_claim(self, cl, nolin=False):
        kind, a, b, label = cl
        if b is not None and a is b: return ('proven', 'identical')
        if kind == 'holds' and a.op == 'const' and a.val: return ('proven', 'identical')
        for soft in ([False, True] if self.bsoft else [False]):
            try:
                if kind in ('num', 'holds'):
                    L, t = self.text(cl, soft, True)
                    if any(k[0].startswith('abs_') for k in L.ufs):
                        self.npaths += 1
                        if self.z3.check(t, min(10, self.limit), None, None)[0] == 'unsat': return ('proven', 'unsat')
                L, t = self.text(cl, soft)
            except V.symex.Unsupported as e: return ('inconclusive', str(e))
            self.npaths += 1
            ins = sorted(L.inputs.values())
            v, m = self.z3.check(t, max(5, self.limit), None, None)
            if v == 'unsat': return ('proven', 'unsat')
            if v == 'sat':
                m = self.model(t, ins)
                r = ('cex', {nm: m[i] for (nm, ty), i in L.inputs.items() if i in m})
            else: r = ('inconclusive', 'solver: unknown')
        return r
    def model(self, t, ins):
        import re
        z = self.z3; out = {}
        if z.p is None or z.p.poll() is not None: z.start()
        try:
            z.send('(push)\n' + t + '\n(set-option :timeout 60000)(check-sat)\n(echo "#v")\n'); dead = time.time()+70; ok = False
            while True:
                l = z.readline(dead)
                if l is None: z.kill(); return out
                if l.strip() == '#v': break
                if l.strip() == 'sat': ok = True
            if ok and ins:
                z.send('(get-value (%s))\n(echo "#m")\n' % ' '.join(ins)); txt = ''
                while True:
                    l = z.readline(time.time()+5)
                    if l is None: z.kill(); return out
                    if l.strip() == '#m': break
                    txt += l
                for a, x, y in re.findall(r'\((i\d+) #(?:x([0-9a-f]+)|b([01]+))\)', txt): out[a] = int(x, 16) if x else int(y, 2)
            z.send('(pop)\n')
        except BrokenPipeError: z.kill()
        return out
    def draw(self, n):
        out = []
        for _ in range(n):
            e = {}
            for s in self.s.samplers: e.update(s(self.rng))
            out.append(e)
        return out
    def search(self, cl, n=600, model=None, tol=0):
        envs = self.draw(n)
        tys = {nm: ty for nm, ty in self.extra_vars()}
        if model:
            e = dict(envs[0])
            for nm, v in model.items():
                ty = tys.get(nm, 'f32')
                if ty == 'f32': v = struct.unpack('<f', struct.pack('<I', v))[0]
                elif ty != 'i1':
                    w = D.bits_of(ty); v = v - (1 << w) if v >> (w-1) else v
                e[nm] = v
            envs.insert(0, e)
        # destinations' earlier contents: fixed numbers unless the model chose them
        for nm, ty in tys.items():
            for e in envs:
                if nm not in e: e[nm] = 0.5 if ty[0] == 'f' else 7
        env = {nm: np.array([e[nm] for e in envs]) for nm in envs[0]}
        ev = concrete.Eval(V.DefEnv(env), len(envs), 'ieee')
        try:
            ok = badfail(self.bassume + self.bsoft, ev) & claimfail(ev, cl)
        except NotImplementedError: return []
        return [(envs[i], {}, 1.0) for i in range(len(envs)) if ok[i]][:12]
    def confirm(self, cl, env):
        return ('cex', None)

def judge(spec, cl, vals, tol=0):
    ev = concrete.Eval(V.DefEnv(vals), 1, 'ieee')
    if not badfail(spec.assumes + spec.soft, ev)[0]: return False, 'assumption not met'
    bad = bool(claimfail(ev, cl)[0])
    kind, a, b, label = cl
    if kind == 'holds': return bad, '%s: %s' % (label, 'false' if bad else 'holds')
    x, y = ev([a, b])
    return bad, '%s: got %r, expected %r' % (label, x[0], y[0])
