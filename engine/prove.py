"""Specification context, proof driver and counterexample replay for one (unit, configuration)."""
import random, time, json, os, math
from fractions import Fraction
import numpy as np
from . import dag as D, real as R, build as B, symex, concrete, replay
from .expr import X, P, N, rc, tobool as BB
from .solver import Z3

class Skip(Exception): pass

class Out: pass

def f32(x): return float(np.float32(float(x)))

class Spec:
    wf = X; wi = staticmethod(lambda n: n)
    def __init__(self, mod, cfgname, unit, tier='quick'):
        self.mod = mod; self.cfg = cfgname; self.unit = unit; self.tier = tier
        self.inputs = {}          # name -> list of nodes
        self.samplers = []; self.calls = []; self.bind = {}
        self.assumes = []; self.rules = []; self.claims = []; self.hints = []; self.k = 0
        self.funcs = set(); self.runs = []; self.maxpaths = 400; self.timeout = 10.0
        self.nocheck = False; self.lin = False; self.lemmas = []; self.roots = False
    # ---------------------------------------------------------------- inputs
    def vec(self, name, n, gen=None):
        ns = ['%s[%d]' % (name, i) for i in range(n)]
        self.samplers.append(gen(ns) if gen else generic(ns))
        return [X(D.var(s)) for s in ns]
    def mat(self, name, r, c=None): return self.vec(name, r*(c or r))
    def scalar(self, name, gen=None):
        self.samplers.append(gen([name]) if gen else generic([name]))
        return X(D.var(name))
    def ivec(self, name, n):
        ns = ['%s[%d]' % (name, i) for i in range(n)]
        self.samplers.append(genint(ns))
        return [D.var(s, 'i32') for s in ns]
    def angle(self, name): return self.scalar(name, genangle)
    def unit_vec(self, name, n):
        """unit vector: last component squared = 1 - rest"""
        ns = ['%s[%d]' % (name, i) for i in range(n)]
        self.samplers.append(genunit(ns))
        v = [X(D.var(s)) for s in ns]
        self.rules.append((ns[-1], X(rc(1)) - sum((e*e for e in v[:-1]), X(rc(0)))))
        return v
    def root(self, name, square):
        """a real number whose square is the given expression"""
        self.samplers.append(lambda rng: {name: Fraction(rng.choice([1, 1, -1]))})
        self.rules.append((name, X(N(square)))); self.roots = True
        return X(D.var(name))
    def pos(self, name):
        s = self.scalar(name, genpos); self.assume(s > 0); return s
    def assume(self, p):
        p = BB(p)
        if p.op == 'and' and p.ty == 'i1':
            for a in p.args: self.assume(a)
            return
        self.assumes.append(p)
    def linear(self, shared=False):
        """decide the claims of this unit in one boolean/linear query each (products of inputs are opaque)"""
        self.lin = 'shared' if shared else True
    def opaque(self, cut=0):
        """decide by canonical forms over indicator, remainder and named atoms (engine/opaque.py); hints are the named intermediates"""
        self.opq = True; self.cutat = cut
    def lattice(self, name, n, lo=-1000, hi=1000):
        """n numbers, each an integer plus a fractional part in [0, 1-2^-24)"""
        ns = ['%s.n[%d]' % (name, i) for i in range(n)]; fs = ['%s.f[%d]' % (name, i) for i in range(n)]
        self.ints = getattr(self, 'ints', []) + ns; self.ranges = getattr(self, 'ranges', {})
        for f in fs: self.ranges[f] = (Fraction(0), 1-Fraction(1, 2**24))
        self.samplers.append(lambda rng: {**{k: Fraction(rng.choice([0, -1, 288, 289, rng.randint(-600, 600)])) for k in ns}, **{k: Fraction(rng.choice([0, 32, rng.randint(0, 63)]), 64) for k in fs}})
        return [X(D.var(k)) for k in ns], [X(D.var(k)) for k in fs]
    def lemma(self, p): self.lemmas.append(BB(p))
    def hint(self, *xs): self.hints += [N(v) for v in xs]
    # ---------------------------------------------------------------- calls
    def call(self, fn, *args, **kw):
        if fn not in self.mod.names: raise Skip(fn + ' not present')
        f = B.API[fn]; ps = f['params']; vals = {}; lb = kw.pop('loop_bound', None)
        it = iter(args)
        for p in ps:
            if p['name'] in kw: vals[p['name']] = kw[p['name']]
            elif not args: continue
            else:
                try: vals[p['name']] = next(it)
                except StopIteration: break
        self.k += 1; tag = 'k%d' % self.k
        init = {}; consts = {}; rec = {}; sizes = {}
        for p in ps:
            if p.get('n') == -1 and p['name'] in vals: consts['len'] = len(vals[p['name']])
        for p in ps:
            nm = p['name']
            if nm not in vals:
                if nm in consts: continue
                if p['kind'] == 'scalar': raise Skip('missing scalar ' + nm)
                n = p['n']
                for i in range(max(n, 0)): init[(nm, i)] = D.var('%s.%s.in[%d]' % (tag, nm, i), p['ty'])
                continue
            v = vals[nm]
            if p['kind'] == 'scalar':
                if isinstance(v, (bool, int)) and p['ty'][0] != 'f': consts[nm] = int(v); continue
                node = self.impl(v, p['ty']); init[(nm, 0)] = node; rec[nm] = [self.raw(v, p['ty'])]
            elif p['n'] == -1:
                # array of matrices
                for j, mtx in enumerate(v):
                    rec['%s%d' % (nm, j)] = [self.raw(e, 'f32') for e in mtx]
                self._mats = v
            else:
                if v and isinstance(v[0], (list, tuple)): v = [e for c in v for e in c]
                sizes[nm] = len(v) if p['n'] in (0, None) else p['n']
                if len(v) != p['n'] and p['n'] > 0 : raise Skip('size of %s' % nm)
                for i, e in enumerate(v): init[(nm, i)] = self.impl(e, p['ty'])
                rec[nm] = [self.raw(e, p['ty']) for e in v]
        if any(p.get('n') == -1 for p in ps):
            r = self.run_arr(fn, consts, init)
        else:
            key = (fn, tuple(sorted((k, v.id) for k, v in init.items() if not v.op == 'var' or '.in[' not in str(v.val))), tuple(sorted(consts.items())))
            r = B.symrun(self.mod, fn, consts, init=init, sizes=sizes, **({'loop_bound': lb} if lb else {}))
        if lb: r.events = [e for e in r.events if e[0] != 'unwind']
        if r.dead: raise Skip('does not return')
        self.funcs |= r.ex.funcs; self.runs.append(r)
        o = Out(); binds = {}; o.pc = P(r.pc)
        for nm, cells in r.out.items():
            l = []
            for i, nd in enumerate(cells):
                pv = D.var('%s.%s[%d]' % (tag, nm, i), nd.ty)
                self.bind[pv.id] = nd; l.append(self.wf(pv) if nd.ty[0] == 'f' else self.wi(pv))
            setattr(o, nm, l)
        o.ret = None
        if r.retnode is not None:
            pv = D.var(tag + '.ret', r.retnode.ty); self.bind[pv.id] = r.retnode
            o.ret = self.wf(pv) if pv.ty[0] == 'f' else self.wi(pv)
        self.calls.append((tag, fn, rec, consts, sizes, o, {nm: [self.bind_of(n) for n in l] for nm, l in r.out.items()}, r.retnode, init))
        return o
    def bind_of(self, n): return n
    def run_arr(self, fn, consts, init):
        m = self.mod
        over = {}
        p = [p for p in B.API[fn]['params'] if p.get('n') == -1][0]['name']
        ini = dict(init)
        r = B.symrun(m, fn, consts, init=ini)
        # substitute matrix cells
        mp = {}
        for j, mt in enumerate(self._mats):
            for i, e in enumerate(mt): mp[D.var('%s%d[%d]' % (p, j, i)).id] = self.impl(e, 'f32')
        for nm in r.out: r.out[nm] = D.subst(r.out[nm], mp)
        return r
    def raw(self, v, ty='f32'):
        if isinstance(v, D.Node): return v
        if isinstance(getattr(v, 'n', None), D.Node): return v.n
        if ty[0] == 'f': return D.fconst(float(v), ty) if not isinstance(v, Fraction) or Fraction(f32(v)) == v else rc(v)
        return D.iconst(int(v), ty)
    def impl(self, v, ty='f32'):
        n = self.raw(v, ty)
        n = D.subst([n], self.bind)[0]
        if ty[0] == 'f' and n.ty == 'real': n = D.mk('fptrunc', ty, (n,))
        return n
    # ---------------------------------------------------------------- claims
    def eq(self, a, b, label=''):
        if isinstance(a, (list, tuple)):
            a = [e for c in a for e in (c if isinstance(c, (list, tuple)) else [c])]
            b = [e for c in b for e in (c if isinstance(c, (list, tuple)) else [c])]
            assert len(a) == len(b), (label, len(a), len(b))
            for i, (p, q) in enumerate(zip(a, b)): self.eq(p, q, '%s[%d]' % (label, i))
            return
        self.claims.append(('eq', N(a), N(b), label))
    def holds(self, p, label=''): self.claims.append(('holds', BB(p), None, label))
    def domain(self, a, label=''):
        """no acos/asin/sqrt leaves its domain through rounding (engine/domain.py)"""
        for i, x in enumerate(a if isinstance(a, (list, tuple)) else [a]): self.claims.append(('domain', N(x), None, '%s[%d]' % (label, i)))
    def nonneg(self, a, label=''): self.holds(X(N(a)) >= 0, label)

# -------------------------------------------------------------------- samplers (exact rational values)
def _num(rng):
    m = rng.random()
    if m < .3: return Fraction(rng.randint(-4, 4))
    if m < .7: return Fraction(rng.randint(-24, 24), 4)
    if m < .9: return Fraction(rng.randint(-400, 400), 64)
    return Fraction(rng.choice([0, 0, 1, -1, 2, 10, -10]))
def generic(ns):
    def s(rng):
        m = rng.random()
        if m < .05: v = _num(rng); return {n: v for n in ns}
        if m < .12: return {n: Fraction(rng.choice([0, 1, -1])) for n in ns}
        if m < .18:
            k = rng.choice(ns); return {n: (_num(rng) if n == k else Fraction(0)) for n in ns}
        return {n: _num(rng) for n in ns}
    return s
def genint(ns):
    return lambda rng: {n: rng.choice([0, 1, -1, 2, 3, 5, -7, 100, -1000, rng.randint(-50, 50), rng.randint(-10**6, 10**6), 2**31-1, -2**31+1, -2**31]) for n in ns}
def genpos(ns):
    return lambda rng: {n: Fraction(rng.randint(1, 64), rng.choice([1, 4, 8, 16])) for n in ns}
def genangle(ns):
    return lambda rng: {n: Fraction(rng.randint(-190, 190), 64) if rng.random() < .85 else Fraction(rng.choice([0, 1, -1])) for n in ns}
def genrange(lo, hi):
    def g(ns):
        return lambda rng: {n: Fraction(lo) + (Fraction(hi)-Fraction(lo))*Fraction(rng.randint(0, 64), 64) for n in ns}
    return g
def genunit(ns):
    def s(rng):
        k = len(ns)
        m = rng.random()
        if m < .15:
            j = rng.randrange(k); sg = rng.choice([1, -1]); return {n: Fraction(sg if i == j else 0) for i, n in enumerate(ns)}
        p = [Fraction(rng.randint(-6, 6), rng.choice([1, 2, 3])) for _ in range(k-1)]
        q = sum(e*e for e in p)
        v = [2*e/(q+1) for e in p] + [(q-1)/(q+1)]
        rng.shuffle(v)
        return dict(zip(ns, v))
    return s

# -------------------------------------------------------------------- proving
def conj(n):
    out = []; st = [n]
    while st:
        a = st.pop()
        if a.op == 'and' and a.ty == 'i1': st += list(a.args)
        else: out.append(a)
    return out

def sb_(ns, bind): return D.subst(ns, bind)

class Prover:
    def __init__(self, spec, z3, seed=1):
        self.s = spec; self.z3 = z3; self.rng = random.Random(seed); self.npaths = 0
        self.results = []; self.samples = None; self.lems = None
        self.log = []
    def setup(self, extra=None, submap=None):
        s = self.s; c = self.c = R.Ctx()
        c.deadline = time.time() + self.limit
        self.submap = submap or {}
        c.inputnames = frozenset(v for v in self.inames())
        c.idx('pi')
        for nm in sorted(c.inputnames): c.idx(nm)
        self.reassume()
    def inames(self):
        out = set()
        roots = [r for cl in self.bound for r in cl[1:3] if r is not None] + self.bassume + sb_(self.s.lemmas, self.s.bind) + [r for _, r in self.brules]
        for n in D.postorder(roots):
            if n.op == 'var': out.add(n.val)
        out.update(nm for nm, _ in self.brules)
        return out
    def reassume(self):
        c = self.c; c.path = {}; c.pmemo = {}; c.ptrig = {}
        c.hints = self.bhints
        while True:
            try:
                for nm, node in self.brules:
                    r = c.low(node)
                    q = R.ONE
                    for f, e in r.d.items():
                        for _ in range(e): q = R.pmul(q, c.facs[f])
                    c.rules[c.idx(nm)] = (r.n, q)
                for a in self.bassume:
                    for lit in conj(a): self.assume_lit(lit)
                return
            except R.Restart: continue
    def assume_lit(self, a):
        c = self.c; neg = False
        while a.op == 'not': a = a.args[0]; neg = not neg
        if a.op in ('folt', 'fole', 'foeq', 'fone', 'fueq'):
            try: d = c.sub(c.low(a.args[0]), c.low(a.args[1]))
            except R.NeedSplit: return
            w = {'folt': '-', 'fole': '-0', 'foeq': '0', 'fone': '-+', 'fueq': '0'}[a.op]
            if neg: w = ''.join(x for x in '-0+' if x not in w)
            c.assume_sign(d, w)
    def bindall(self):
        s = self.s
        def sb(ns): return D.subst(ns, s.bind)
        self.bound = []
        for k, a, b, l in s.claims:
            r = sb([a] + ([b] if b is not None else []))
            self.bound.append((k, r[0], r[1] if b is not None else None, l))
        self.bassume = sb(s.assumes); self.brules = [(n, sb([N(e)])[0]) for n, e in s.rules]; self.bhints = sb(s.hints)
    def fingerprint(self):
        return tuple((k, a.id, b.id if b is not None else None) for k, a, b, l in self.bound) + tuple(a.id for a in self.bassume)

    def run(self, limit=120):
        self.limit = limit
        for cl in self.bound:
            self.setup()
            st = self.prove_claim(cl)
            self.results.append((cl, st))
        return self.results

    def prove_claim(self, cl, nolin=False):
        """-> ('proven'|'cex'|'inconclusive', detail)"""
        kind, a, b, label = cl
        t0 = time.time()
        if kind == 'domain':
            from . import domain
            return domain.prove(self, cl)
        if getattr(self.s, 'opq', False) and not nolin:
            from . import opaque
            if kind == 'eq' and a is b: return ('proven', 'identical')
            return opaque.prove(self, cl)
        if self.s.lin and not nolin:
            from . import linear
            if self.lems is None:
                self.lems = []
                for lm in sb_(self.s.lemmas, self.s.bind):
                    self.setup()
                    r = self.prove_claim(('holds', lm, None, 'lemma'), True)
                    if r[0] == 'proven': self.lems.append(lm)
                self.setup()
            r = linear.prove(self, cl, self.lems)
            return r
        if kind == 'eq' and a is b:
            return ('proven', 'identical')
        tries = 0; c = self.c; stack = [{}]; paths = 0; q = []; bad = None
        try:
            while stack:
                path = stack.pop(); c.path = path; c.pmemo = {}; c.ptrig = {}
                try:
                    self.path_assumes()
                    if kind == 'eq':
                        la = c.low(a); lb = c.low(b)
                        res = ('eq', la, lb)
                    else:
                        res = ('holds', c.cond(a), None)
                except R.NeedSplit as e:
                    k = R.pkey(e.key); al = c.allowed(e.key)
                    for part in (al & e.pos, al - e.pos):
                        if not part: continue
                        np_ = dict(path); np_[k] = (part, e.key); stack.append(np_)
                    if paths + len(stack) > self.s.maxpaths: return ('inconclusive', 'too many paths')
                    continue
                except R.Restart:
                    tries += 1
                    if tries > 12: return ('inconclusive', 'angle units')
                    self.reassume(); stack = [{}]; paths = 0; continue
                except ZeroDivisionError:
                    if path and not self.feasible(path): paths += 1; continue
                    bad = bad or ('cex?', 'division by zero'); paths += 1; continue
                except AssumeFalse:
                    paths += 1; continue
                paths += 1
                if res[0] == 'holds':
                    if res[1]: continue
                    v = self.solve_path(path, None)
                else:
                    v = self.solve_path(path, (res[1], res[2]))
                if v[0] == 'unsat': continue
                if v[0] == 'sat': return self.done(paths, ('cex', v[1]))
                bad = ('inconclusive', 'solver: unknown')
                q.append(label)
        except R.TooBig as e: bad = ('inconclusive', 'expression too large %s' % e)
        except R.NotReal as e: bad = ('inconclusive', 'not encodable: %s' % e)
        except RecursionError: bad = ('inconclusive', 'recursion')
        except ZeroDivisionError: bad = ('cex?', 'division by zero')
        if bad: return self.done(paths, bad)
        return self.done(paths, ('proven', '%d paths' % paths))
    def done(self, paths, r):
        self.npaths += paths; return r
    def path_assumes(self):
        # assumptions that need case splits (disjunctions)
        c = self.c
        for a in self.bassume:
            for lit in conj(a):
                l = lit
                while l.op == 'not': l = l.args[0]
                if l.op in ('folt', 'fole', 'foeq', 'fone', 'fueq'):
                    if not c.cond(lit): raise AssumeFalse()
                elif not c.cond(lit): raise AssumeFalse()
    # ------------------------------------------------------------ solver text
    def atomtext(self, used):
        c = self.c; out = []; todo = list(used); seen = set(used)
        while todo:
            i = todo.pop()
            def need(p):
                for j in c.pvars(p, set()):
                    if j not in seen: seen.add(j); todo.append(j)
            if i in c.rules:
                Pn, Q = c.rules[i]; need(Pn); need(Q)
                if Q == R.ONE: out.append('(assert (= (* v%d v%d) %s))' % (i, i, c.ptext(Pn)))
                else: out.append('(assert (= (* v%d v%d %s) %s))(assert (not (= %s 0.0)))' % (i, i, c.ptext(Q), c.ptext(Pn), c.ptext(Q)))
            if i in c.nonneg: out.append('(assert (>= v%d 0.0))' % i)
            if c.names[i] == 'pi': out.append('(assert (and (> v%d 3.14159265) (< v%d 3.14159266)))' % (i, i))
            d = c.defs.get(i)
            if d and d[0] in ('floor', 'ceil', 'ftrunc') and not d[1][0].d:
                need(d[1][0].n); t = c.ptext(d[1][0].n)
                out.append('(assert (or (> v%d 4.0) (< v%d (- 4.0)) %s))' % (i, i, ' '.join('(= v%d %s)' % (i, k if k[0] != '-' else '(- %s)' % k[1:]) for k in ('-4.0', '-3.0', '-2.0', '-1.0', '0.0', '1.0', '2.0', '3.0', '4.0'))))
                if d[0] == 'floor': out.append('(assert (and (<= v%d %s) (< %s (+ v%d 1.0))))' % (i, t, t, i))
                if d[0] == 'ceil': out.append('(assert (and (>= v%d %s) (> %s (- v%d 1.0))))' % (i, t, t, i))
                if d[0] == 'ftrunc':
                    out.append('(assert (=> (>= %s 0.0) (and (<= 0.0 v%d) (<= v%d %s) (< %s (+ v%d 1.0)))))' % (t, i, i, t, t, i))
                    out.append('(assert (=> (<= %s 0.0) (and (>= 0.0 v%d) (>= v%d %s) (> %s (- v%d 1.0)))))' % (t, i, i, t, t, i))
            if d and d[0] in ('atan', 'asin'):
                a = d[1][0]; ps = [a.n] + [c.facs[f] for f, e in a.d.items() if e % 2]
                for p in ps: need(p)
                t = '(* 1.0 %s)' % ' '.join(c.ptext(p) for p in ps)
                out.append('(assert (and (= (> %s 0.0) (> v%d 0.0)) (= (< %s 0.0) (< v%d 0.0))))' % (t, i, t, i))
                if 'pi' in c.vars:
                    k = c.vars['pi']; need({1 << (R.SH*k): 1}); op = '<' if d[0] == 'atan' else '<='
                    out.append('(assert (and (%s v%d (* 0.5 v%d)) (%s (* (- 0.5) v%d) v%d)))' % (op, i, k, op, k, i))
            if d and d[0] in ('acos',) and 'pi' in c.vars: out.append('(assert (<= v%d 3.15))' % i)
            if d and d[0] in ('asin', 'atan'): out.append('(assert (and (<= v%d 1.58) (>= v%d (- 1.58))))' % (i, i))
        return out, seen
    def signtext(self, q, al):
        t = self.c.ptext(q); al = ''.join(sorted(al))
        return {'+': '(> %s 0.0)', '-': '(< %s 0.0)', '0': '(= %s 0.0)', '+0': '(>= %s 0.0)', '-0': '(<= %s 0.0)', '+-': '(not (= %s 0.0))', '+-0': 'true', '': 'false'}[al].replace('%s', t)
    def query(self, path, goal=None, extra=''):
        """text of: relations, assumptions, path, goal"""
        c = self.c; used = set(); body = []
        if goal is not None:
            la, lb = goal
            # numerators over common denominators
            dens = dict(la.d)
            for f, e in lb.d.items(): dens[f] = max(dens.get(f, 0), e)
            def up(x):
                fs = []
                for f, e in dens.items():
                    k = e - x.d.get(f, 0)
                    fs += [c.facs[f]]*k
                for p in fs + [x.n]: c.pvars(p, used)
                return '(* 1.0 %s)' % ' '.join([c.ptext(x.n)] + [c.ptext(p) for p in fs]) if fs else c.ptext(x.n)
            A, Bt = up(la), up(lb)
            for f in dens:
                c.pvars(c.facs[f], used); body.append('(assert (not (= %s 0.0)))' % c.ptext(c.facs[f]))
            body.append('(assert (not (= %s %s)))' % (A, Bt))
        for k, (al, q) in path.items():
            c.pvars(q, used); body.append('(assert %s)' % self.signtext(q, al))
        for k, al in c.assumed.items():
            q = c.assumed_polys[k]
            if al != c.ALL:
                c.pvars(q, used); body.append('(assert %s)' % self.signtext(q, al))
        at, seen = self.atomtext(used)
        decl = ''.join('(declare-const v%d Real)' % i for i in sorted(seen))
        return decl + '\n' + '\n'.join(at) + '\n' + '\n'.join(body) + extra, sorted(seen)
    def identity(self, la, lb):
        """residual polynomial identity modulo the relations, with cofactors; -> query text or None if not an identity"""
        c = self.c
        dens = dict(la.d)
        for f, e in lb.d.items(): dens[f] = max(dens.get(f, 0), e)
        def up(x):
            n = x.n; txt = [c.ptext(n)]
            for f, e in dens.items():
                for _ in range(e - x.d.get(f, 0)): n = R.pmul(n, c.facs[f]); txt.append(c.ptext(c.facs[f]))
            return n, ('(* %s)' % ' '.join(txt) if len(txt) > 1 else txt[0])
        na, ta = up(la); nb, tb = up(lb)
        n = R.psub(na, nb); cof = []; mult = []
        guard = 0
        while n:
            guard += 1
            if guard > 60: return None
            hit = False
            for i in sorted(c.rules, reverse=True):
                Pn, Q = c.rules[i]; sh = R.SH*i
                quo = {}; rest = {}
                for m, k in n.items():
                    e = c.exp(m, i)
                    if e >= 2:
                        quo[m - (2 << sh)] = quo.get(m - (2 << sh), 0) + k
                    else: rest[m] = rest.get(m, 0) + k
                if quo:
                    hit = True
                    # n = quo*v^2 + rest ; Q*n = quo*(Q v^2 - P) + quo*P + Q*rest
                    cof.append((i, quo, len(mult)))
                    if Q == R.ONE: n = R.padd(R.pmul(quo, Pn), rest)
                    else:
                        n = R.padd(R.pmul(quo, Pn), R.pmul(Q, rest)); mult.append(Q)
                    break
            if not hit: break
        if n: return None
        # Q1..Qk (A-B) = sum_i quo_i g_i * prod of later Qs
        used = set()
        lhs = '(- %s %s)' % (ta, tb)
        for q in mult: lhs = '(* %s %s)' % (lhs, c.ptext(q))
        terms = []
        for i, quo, k in cof:
            Pn, Q = c.rules[i]
            g = '(- (* %s v%d v%d) %s)' % (c.ptext(Q), i, i, c.ptext(Pn))
            later = mult[k+1:] if Q != R.ONE else mult[k:]
            terms.append('(* %s %s %s)' % (c.ptext(quo), g, ' '.join(c.ptext(q) for q in later)))
            for p in (Pn, Q, quo): c.pvars(p, used)
            used.add(i)
        for p in [la.n, lb.n] + [c.facs[f] for f in dens] + mult: c.pvars(p, used)
        rhs = '0.0' if not terms else terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)
        return ''.join('(declare-const v%d Real)' % i for i in sorted(used)) + '(assert (not (= %s %s)))' % (lhs, rhs)
    def solve_path(self, path, goal):
        c = self.c
        if goal is not None:
            try: t = self.identity(*goal)
            except R.TooBig: t = None
            if t is not None:
                v, _ = self.z3.check(t, 60, 'qfnra-nlsat')
                if v == 'unsat': return ('unsat', None)
                v, _ = self.z3.check(t, 60, '(then (using-params simplify :som true) qfnra-nlsat)')
                if v == 'unsat': return ('unsat', None)
        if path and not self.feasible(path): return ('unsat', None)
        txt, vs = self.query(path, goal)
        v, m = self.z3.check(txt, self.s.timeout, 'qfnra-nlsat', ['v%d' % i for i in vs])
        if v == 'unknown' and len(txt) < 20000:
            v, m = self.z3.check(txt, self.s.timeout/2, 'smt', ['v%d' % i for i in vs])
        if v == 'sat': return ('sat', {c.names[i]: m.get('v%d' % i) for i in vs})
        return (v, None)
    def feasible(self, path):
        txt, vs = self.query(path, None)
        v, _ = self.z3.check(txt, 3.0, 'qfnra-nlsat')
        return v != 'unsat'

    # ------------------------------------------------------------ counterexamples
    def draw(self, n):
        out = []
        for _ in range(n):
            e = {}
            for s in self.s.samplers: e.update(s(self.rng))
            if self.s.roots: self.repair(e)
            out.append(e)
        return out
    def extra_vars(self):
        """destination garbage etc."""
        ns = set()
        for n in D.postorder([r for cl in self.bound for r in cl[1:3] if r is not None] + self.bassume):
            if n.op == 'var': ns.add((n.val, n.ty))
        return ns
    def search(self, cl, n=600, model=None, tol=2e-7):
        """numeric candidates: exact environments for which the claim fails in double precision"""
        envs = self.draw(n)
        if model:
            for _ in range(12):
                e = dict(envs[0])
                e = dict(self.draw(1)[0])
                for k, v in model.items():
                    if v is not None and k in e and not isinstance(v, bool): e[k] = Fraction(v).limit_denominator(10**9)
                envs.insert(0, e)
            for e in envs[:12]: self.repair(e)
        names = {nm for e in envs[:1] for nm in e}
        env = {nm: np.array([float(e[nm]) if isinstance(e[nm], Fraction) else e[nm] for e in envs]) for nm in names}
        for nm, ty in self.extra_vars():
            if nm not in env: env[nm] = np.array([self.rng.choice([0.5, -3.0, 7.0, 2.0]) for _ in envs]) if ty[0] == 'f' or ty == 'real' else np.array([self.rng.randint(-9, 9) for _ in envs])
        ev = concrete.Eval(env, len(envs), 'real')
        kind, a, b, label = cl
        ok = np.ones(len(envs), bool)
        try:
            for t in self.bassume:
                ok &= tri(ev, t, 1e-9) == 1
            for nm, node in self.brules:
                v, w = [np.asarray(x, float) for x in ev([D.var(nm), node])]
                ok &= np.abs(v*v - w) < 1e-6
            if kind == 'eq':
                va, vb = [x.astype(np.float64) for x in ev([a, b])]
                rb = np.abs(va-vb)/(1+np.maximum(np.abs(va), np.abs(vb)))
                und = ~np.isfinite(va) & np.isfinite(vb)
                rb = np.where(np.isfinite(rb), rb, np.where(und, 10.0, 0.0))
                score = np.where(ok, rb, 0)
                cand = [i for i in np.argsort(-np.minimum(score, 1.0), kind='stable') if score[i] > tol]
            else:
                t = tri(ev, a, 1e-4); score = np.where(ok & (t == 0), 1.0, 0.0)
                if model: score[:12] = np.where(ok[:12] & (t[:12] == 2), 0.5, score[:12])   # the real code decides
                cand = [i for i in range(len(envs)) if score[i] > 0]
        except NotImplementedError: return []
        return [(envs[i], {nm: env[nm][i] for nm, _ in self.extra_vars() if nm not in envs[i]}, float(score[i])) for i in cand[:12]]
    def definite(self, cl, model=None, n=1500, limit=15):
        """inputs, of all magnitudes, at which the claim fails whatever the rounding"""
        from . import runerr
        base = self.draw(n); envs = []
        f32 = lambda v: Fraction(float(np.float32(float(v))))
        if model:
            m = {k: Fraction(v) for k, v in model.items() if v is not None and k in base[0] and not isinstance(v, bool)}
            for d in (2**12, 2**24, 10**9, 16, 1, 10**60):
                for _ in range(3):
                    e = dict(base[self.rng.randrange(n)]); e.update({k: v.limit_denominator(d) if isinstance(e[k], Fraction) else int(v) for k, v in m.items()}); envs.append(e)
        for i, e in enumerate(base):
            e = dict(e); ks = [k for k, v in e.items() if isinstance(v, Fraction)]
            if i % 4 == 1: z = Fraction(2)**self.rng.randint(-20, 24); e.update({k: e[k]*z for k in ks})
            elif i % 4 == 2: e.update({k: e[k]*Fraction(2)**self.rng.choice((0, 0, 0, -12, -7, 8, 21, self.rng.randint(-24, 24), self.rng.randint(-80, 60))) for k in ks})
            elif i % 4 == 3: e.update({k: Fraction(self.rng.randint(-3, 3)) for k in ks if self.rng.random() < .6})
            envs.append(e)
        for e in envs:
            e.update({k: f32(v) for k, v in e.items() if isinstance(v, Fraction) and abs(v) < 10**38})
            if self.brules: self.repair(e); e.update({nm: f32(e[nm]) for nm, _ in self.brules if nm in e})
        ex = [(nm, ty) for nm, ty in self.extra_vars() if nm not in envs[0]]
        env = {nm: np.array([float(e[nm]) if isinstance(e[nm], Fraction) else e[nm] for e in envs]) for nm in envs[0]}
        g = {nm: (0.5 if ty[0] == 'f' or ty == 'real' else 3) for nm, ty in ex}
        for nm in g: env[nm] = np.full(len(envs), g[nm])
        with np.errstate(all='ignore'):
            ev = concrete.Eval(env, len(envs), 'real'); ok = np.ones(len(envs), bool)
            for t in self.bassume: ok &= tri(ev, t, 1e-12) == 1
            if cl[0] == 'eq':
                va, vb = [x.astype(np.float64) for x in ev([cl[1], cl[2]])]
                sc = np.abs(va-vb)/np.maximum(np.maximum(np.abs(va), np.abs(vb)), 1e-300); sc = np.where(np.isfinite(sc) & ok, sc, 0)
                cand = [i for i in np.argsort(-sc, kind='stable') if sc[i] > 1e-7]
            else:
                t = tri(ev, cl[1], 1e-12); cand = [i for i in range(len(envs)) if ok[i] and t[i] != 1]
        dead = time.time() + limit
        for i in cand[:200]:
            if time.time() > dead: return
            e = dict(envs[i]); e.update({k: Fraction(v) for k, v in g.items()})
            if runerr.fails(cl, self.bassume, self.brules, e): yield envs[i], g
    def ties(self, cl, model=None, n=2000):
        from . import exact
        envs = self.draw(n); near = {}
        if model:
            near = {k: Fraction(v).limit_denominator(2**12) for k, v in model.items() if v is not None and k in envs[0] and not isinstance(v, bool)}
            e = dict(envs[0]); e.update(near); envs.insert(0, e)
        for i, e in enumerate(envs):
            if i % 2 and i: e.update({k: Fraction(max(-3, min(3, round(v)))) for k, v in e.items() if isinstance(v, Fraction)})
            if i % 3 and i:
                # what the model puts next to zero is put there, some of the rest near where the model has it
                for k, v in near.items():
                    if abs(v) < Fraction(1, 500): e[k] = Fraction(0)
                    elif self.rng.random() < .4 and abs(v) < 10**6: e[k] = Fraction(round(v*2), 2)
        dead = time.time() + 10
        for e in envs:
            if time.time() > dead: return
            if exact.false_at(cl, self.bassume, self.brules, e): yield e
    def repair(self, e):
        """make the eliminated components of unit vectors consistent with the rest"""
        for nm, node in self.brules:
            if nm not in e: continue
            env = {k: np.array([float(v)]) for k, v in e.items()}
            w = float(concrete.Eval(DefEnv(env), 1, 'real')([node])[0][0])
            if w >= 0: e[nm] = Fraction(math.sqrt(w)*(-1 if e[nm] < 0 else 1)).limit_denominator(10**12)
    def confirm(self, cl, env):
        """ask the solver whether the claim fails at these exact inputs (angles: near them)"""
        keep = set()
        # inputs under trigonometric arguments stay symbolic
        roots = [r for r in cl[1:3] if r is not None]
        sub = {}
        for nm, v in env.items():
            if isinstance(v, Fraction): sub[D.var(nm).id] = rc(v); sub[D.var(nm, 'f64').id] = rc(v)
            else: sub[D.var(nm, 'i32').id] = D.iconst(int(v), 'i32')
        old = (self.bound, self.bassume, self.brules, self.bhints)
        try:
            k, a, b, l = cl
            rr = D.subst([a] + ([b] if b is not None else []), sub)
            cl2 = (k, rr[0], rr[1] if b is not None else None, l)
            self.bound = [cl2]; self.bassume = D.subst(self.bassume, sub); self.brules = []
            self.bhints = []; self.opctx = None
            self.setup()
            st = self.prove_claim(cl2)
            return st
        except (R.NeedSplit, R.NotReal, R.TooBig, ZeroDivisionError) as e: return ('inconclusive', repr(e))
        finally: self.bound, self.bassume, self.brules, self.bhints = old; self.opctx = None

class AssumeFalse(Exception): pass

def weaken(raw, m):
    """the claim with every comparison of its own relaxed by m: a model of its negation misses the claim by at least m"""
    k, a, b, label = raw; m = rc(m)
    near = lambda x, y: D.and_(D.fcmp('ole', D.fsub(x, y), m), D.fcmp('ole', D.fsub(y, x), m))
    def go(n, pos):
        if n.op == 'not': return D.not_(go(n.args[0], not pos))
        if n.op in ('and', 'or') and n.ty == 'i1': return (D.and_ if n.op == 'and' else D.or_)(go(n.args[0], pos), go(n.args[1], pos))
        if n.op in ('folt', 'fole'):
            x, y = n.args
            return D.fcmp('ole', x, D.fadd(y, m)) if pos else D.fcmp('olt', x, D.fsub(y, m))
        if n.op in ('foeq', 'fueq') and pos: return near(*n.args)
        return n
    return ('holds', near(N(a), N(b)) if k == 'eq' else go(a, True), None, label)

def tri(ev, n, tol):
    """three-valued robust evaluation of a predicate: 1 true, 0 false, 2 unknown (comparison within tol)"""
    memo = {}
    def go(n):
        if n.id in memo: return memo[n.id]
        op = n.op
        if op == 'const': r = np.full(ev.n, 1 if n.val else 0)
        elif op == 'not':
            a = go(n.args[0]); r = np.where(a == 2, 2, 1-a)
        elif op in ('and', 'or') and n.ty == 'i1':
            a, b = go(n.args[0]), go(n.args[1])
            if op == 'and': r = np.where((a == 0) | (b == 0), 0, np.where((a == 1) & (b == 1), 1, 2))
            else: r = np.where((a == 1) | (b == 1), 1, np.where((a == 0) & (b == 0), 0, 2))
        elif op == 'xor' and n.ty == 'i1':
            a, b = go(n.args[0]), go(n.args[1]); r = np.where((a == 2) | (b == 2), 2, a ^ b)
        elif op == 'ite' and n.ty == 'i1':
            c, a, b = (go(z) for z in n.args); r = np.where(c == 1, a, np.where(c == 0, b, np.where(a == b, a, 2)))
        elif op in ('folt', 'fole', 'foeq', 'fone', 'fueq'):
            x, y = [v.astype(np.float64) for v in ev(list(n.args))]
            m = tol*(1+np.maximum(np.abs(x), np.abs(y)))
            with np.errstate(all='ignore'):
                d = x - y
                inf = ~np.isfinite(x) | ~np.isfinite(y)
                near = ~(np.abs(d) > m) & ~inf
                if op in ('folt', 'fole'): r = np.where(near, 2, (x < y).astype(int))
                elif op in ('foeq', 'fueq'): r = np.where(near, np.where(d == 0, 1, 2), 0)
                else: r = np.where(near, np.where(d == 0, 0, 2), 1)
                r = np.where(np.isnan(x) | np.isnan(y), 0 if op != 'fueq' else 1, r)
        else:
            r = ev([n])[0].astype(int)
        memo[n.id] = r; return r
    with np.errstate(all='ignore'): return go(n)

# -------------------------------------------------------------------- replay on the compiled code
def execute(spec, env, garbage, lib, child):
    """run the recorded calls; -> (placeholder values, log) or None"""
    vals = {k: np.array([float(v) if isinstance(v, Fraction) else v]) for k, v in env.items()}
    for k, v in garbage.items(): vals.setdefault(k, np.array([v]))
    native = B.CFG[spec.cfg].native
    log = []
    for tag, fn, rec, consts, sizes, o, cells, retnode, init in spec.calls:
        ev = concrete.Eval(DefEnv(vals), 1, 'real')
        ins = {}
        for nm, nodes in rec.items():
            l = []
            for n in nodes:
                v = ev([n])[0][0]
                if n.ty[0] == 'f' or n.ty == 'real': l.append(float(np.float32(v)))
                else:
                    w = int(v); b = D.bits_of(n.ty)
                    l.append(w - (1 << b) if b > 1 and w >> (b-1) else w)
            ins[nm] = l
        st = 'err'
        if native and lib: st, r = child.call(lib, fn, ins, consts=consts, sizes=sizes)
        if st != 'err':
            if st != 'ok':
                log.append(dict(fn=fn, inputs=ins, result='%s %r' % (st, r))); return None, log
            rv, out = r
        else:
            e2 = {}
            for nm, l in ins.items():
                for i, v in enumerate(l): e2[(nm, i)] = v
            rv, out = interp(spec, tag, fn, cells, retnode, vals, init, ins)
        for nm, arr in out.items():
            for i, v in enumerate(arr): vals['%s.%s[%d]' % (tag, nm, i)] = np.array([v])
        if rv is not None: vals[tag + '.ret'] = np.array([rv])
        log.append(dict(fn=fn, config=spec.cfg, inputs={k: [float(x) for x in v] for k, v in ins.items()}, consts=consts,
                        outputs={k: [float(x) for x in v] for k, v in out.items()}, ret=None if rv is None else float(rv)))
    return vals, log

class DefEnv(dict):
    def __missing__(self, k): return np.array([0.5])

def interp(spec, tag, fn, cells, retnode, vals, init, ins):
    """execute the configuration's IR semantics concretely (targets that cannot run here)"""
    ev = concrete.Eval(DefEnv(vals), 1, 'ieee')
    out = {}
    for nm, l in cells.items(): out[nm] = [conv1(ev([n])[0][0], n) for n in l]
    rv = None if retnode is None else conv1(ev([retnode])[0][0], retnode)
    return rv, out
def conv1(v, n):
    if n.ty[0] == 'f': return float(v)
    if n.ty == 'i1': return int(v)
    b = D.bits_of(n.ty); w = int(v)
    return w - (1 << b) if w >> (b-1) else w

def sharp(spec, p, raw, cl, env, garbage, vals, tol=4e-7):
    """small deviations: the claim fails in exact arithmetic at this input by more than tol, and the compiled code's outputs fail it in the same way"""
    with np.errstate(all='ignore'): return sharp_(spec, p, raw, cl, env, garbage, vals, tol)
def sharp_(spec, p, raw, cl, env, garbage, vals, tol):
    ex = DefEnv({k: np.array([float(v) if isinstance(v, Fraction) else v]) for k, v in env.items()})
    for k, v in garbage.items(): ex.setdefault(k, np.array([v]))
    em, eo = concrete.Eval(ex, 1, 'real'), concrete.Eval(DefEnv(vals), 1, 'real')
    for t in p.bassume:
        if tri(em, t, 1e-9)[0] == 0: return False, ''
    for t in spec.assumes:
        if tri(eo, t, 1e-6)[0] == 0: return False, ''
    for nm, e in spec.rules:
        v, w = [float(x[0]) for x in eo([D.var(nm), N(e)])]
        if not abs(v*v - w) < 1e-5: return False, ''
    if raw[0] == 'eq':
        ma, mb = [float(x[0]) for x in em([cl[1], cl[2]])]; oa, ob = [float(x[0]) for x in eo([raw[1], raw[2]])]
        if not all(math.isfinite(x) for x in (ma, mb, oa, ob)): return False, ''
        dm, do = ma-mb, oa-ob
        return abs(dm) > tol*(1+max(abs(ma), abs(mb))) and abs(do-dm) <= abs(dm)/4, '%s: got %r, expected %r (exact arithmetic: %r, expected %r)' % (raw[3], oa, ob, ma, mb)
    if raw[0] == 'holds':
        return tri(em, cl[1], 5*tol)[0] == 0 and tri(eo, raw[1], 5*tol)[0] == 0, '%s: false' % raw[3]
    return False, ''

def judge(spec, cl, vals, tol=1e-3):
    """does the claim fail on the observed outputs?  -> (bool, detail)"""
    kind, a, b, label = cl          # unbound claim (placeholders)
    if kind == 'domain':
        v = float(concrete.Eval(DefEnv(vals), 1, 'real')([a])[0][0]); return math.isnan(v), '%s: got %r for finite inputs' % (label, v)
    ev = concrete.Eval(DefEnv(vals), 1, 'real')
    for t in spec.assumes:
        if tri(ev, t, 1e-6)[0] == 0: return False, 'assumption not met'
    for nm, e in spec.rules:
        v, w = [float(x[0]) for x in ev([D.var(nm), N(e)])]
        if not abs(v*v - w) < 1e-5: return False, 'unit-length assumption not met'
    if kind == 'eq':
        va, vb = [float(x[0]) for x in ev([a, b])]
        if math.isnan(vb) or math.isinf(vb): return False, 'spec undefined'
        if math.isnan(va) or math.isinf(va): return True, '%s: got %r, expected %r' % (label, va, vb)
        d = abs(va-vb)
        return d > tol*(1+max(abs(va), abs(vb))), '%s: got %r, expected %r' % (label, va, vb)
    t = tri(ev, a, tol)[0]
    return t == 0, '%s: %s' % (label, 'false' if t == 0 else 'holds or borderline')
