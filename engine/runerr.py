"""Evaluation with a running bound on rounding errors: every value comes with the largest distance any float32 execution of the
expression (libm within 2 ulp) may have from its exact value. A claim that fails by more than that fails in the formula, not by rounding."""
import math
from fractions import Fraction
import numpy as np
from . import dag as D, exact
from .exact import Inexact, fits

EPS = 6.1e-8; LIBM = 2.5e-7
class Val:
    __slots__ = ('v', 'e')
    def __init__(self, v, e=0.0): self.v = v; self.e = e
def F(x):
    if not math.isfinite(x): raise Inexact
    return Fraction(x)
UN = dict(sin=(math.sin, lambda x, e: e), cos=(math.cos, lambda x, e: e), tan=(math.tan, lambda x, e: 2*e/math.cos(x)**2 if abs(math.cos(x)) > 1e-3 + 10*e else None),
          exp=(math.exp, lambda x, e: 2*e*math.exp(x) if e < .5 else None), exp2=(lambda x: 2.0**x, lambda x, e: 2*e*2.0**x if e < .5 else None),
          log=(math.log, lambda x, e: 2*e/x if x > 4*e else None),
          atan=(math.atan, lambda x, e: e), acos=(math.acos, lambda x, e: arc(x, e)), asin=(math.asin, lambda x, e: arc(x, e)))
def arc(x, e):
    d = 1 - (abs(x) + e)**2
    return e/math.sqrt(d) if d > 0 else (None if e else 0.0)
class Run(exact.Exact):
    def __init__(self, env, loose=()):
        exact.Exact.__init__(self, env); self.loose = loose
    def __call__(self, root):
        st = [root]; m = self.memo
        while st:
            n = st[-1]
            if n.id in m: st.pop(); continue
            if n.op == 'ite' or (n.op in ('and', 'or') and n.ty == 'i1'):
                c = n.args[0]
                if c.id not in m: st.append(c); continue
                v = m[c.id]
                if n.op == 'ite':
                    if v is None:
                        if n.ty != 'i1': raise Inexact
                        w = [x for x in n.args[1:] if x.id not in m]
                        if w: st += w; continue
                        x, y = m[n.args[1].id], m[n.args[2].id]
                        m[n.id] = x if x == y else None; st.pop(); continue
                    k = n.args[1] if v else n.args[2]
                elif v is None:
                    k = n.args[1]
                    if k.id not in m: st.append(k); continue
                    x = m[k.id]; m[n.id] = x if x is not None and (n.op == 'and') != bool(x) else None
                    st.pop(); continue
                elif (n.op == 'and') == bool(v): k = n.args[1]
                else: m[n.id] = v; st.pop(); continue
                if k.id not in m: st.append(k); continue
                m[n.id] = m[k.id]; st.pop(); continue
            w = [a for a in n.args if a.id not in m]
            if w: st += w; continue
            m[n.id] = self.node(n, [m[a.id] for a in n.args]); st.pop()
        return m[root.id]
    def rnd(self, v, e, ty, k=1.0):
        if v.denominator.bit_length() > 700 or v.numerator.bit_length() > 900: v = F(float(v)); e += abs(float(v))*2.3e-16
        f = abs(float(v))
        if f > 1e38 or e > 1e37: raise Inexact
        if ty == 'f32' and (e or not fits(v)): e = e*(1+1e-6) + k*EPS*f + 1e-44
        elif ty == 'f64': e = e + f*2.3e-16
        return Val(v, e)
    def node(self, n, a):
        op, ty = n.op, n.ty
        if op == 'const' and (ty[0] == 'f' or ty == 'real'):
            if ty == 'real':
                if isinstance(n.val, str): raise Inexact
                return Val(n.val if isinstance(n.val, Fraction) else Fraction(n.val))
            v = D.fval(n)
            if not math.isfinite(v): raise Inexact
            return Val(Fraction(v), 0.0 if v*65536 == int(v*65536) and abs(v) < 2**30 else abs(v)*EPS*2)
        if op == 'var':
            if n.val not in self.env: raise Inexact
            v = self.env[n.val]
            if ty[0] != 'f' and ty != 'real': return int(v)
            v = Fraction(v); f = abs(float(v))
            return Val(v, (2.5e-7*f if n.val in self.loose else 0.0) + (0.0 if fits(v) else EPS*f))
        if ty[0] == 'f' or ty == 'real':
            if op in ('fadd', 'fsub'):
                x, y = a; return self.rnd(x.v+y.v if op == 'fadd' else x.v-y.v, x.e+y.e, ty)
            if op == 'fmul' or op == 'fma':
                x, y = a[:2]; v = x.v*y.v; e = abs(float(x.v))*y.e + abs(float(y.v))*x.e + x.e*y.e
                if op == 'fma':
                    # whether the product is rounded on its own depends on the build
                    p = self.rnd(v, e, ty); return self.rnd(p.v + a[2].v, p.e + a[2].e, ty)
                return self.rnd(v, e, ty)
            if op in ('fdiv', 'rcp'):
                x, y = a if op == 'fdiv' else (Val(Fraction(1)), a[0])
                b = abs(float(y.v))
                if b <= 2*y.e or b == 0: raise Inexact
                v = x.v/y.v
                r = self.rnd(v, (x.e + abs(float(v))*y.e)/(b - y.e), ty)
                if op == 'rcp': r.e += abs(float(v))*5e-4
                return r
            if op == 'fneg': return Val(-a[0].v, a[0].e)
            if op == 'fabs': return Val(abs(a[0].v), a[0].e)
            if op in ('sqrt', 'rsqrt'):
                x = a[0]
                if x.v < 0: raise Inexact
                num, den = math.isqrt(x.v.numerator), math.isqrt(x.v.denominator)
                ex = num*num == x.v.numerator and den*den == x.v.denominator
                v = Fraction(num, den) if ex else F(math.sqrt(float(x.v))); f = float(v)
                e = math.sqrt(x.e) if f*f <= 2*x.e else x.e/f
                if not ex: e += f*2.3e-16
                r = self.rnd(v, e, ty)
                if op == 'sqrt': return r
                if f <= 2*r.e or f == 0: raise Inexact
                v = 1/v; return self.rnd(v, r.e*float(v)**2*2 + float(v)*5e-4, ty)
            if op == 'fpext': return a[0]
            if op == 'fptrunc': return self.rnd(a[0].v, a[0].e, ty)
            if op in ('sitofp', 'uitofp'):
                v = a[0]; b = D.bits_of(n.args[0].ty)
                return self.rnd(Fraction(v - (1 << b) if op == 'sitofp' and b > 1 and v >> (b-1) else v), 0.0, ty)
            if op in ('floor', 'ceil', 'ftrunc'):
                x = a[0]; f = {'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc}[op]; e = F(x.e)*2
                if f(x.v-e) != f(x.v+e): raise Inexact
                return Val(Fraction(f(x.v)))
            if op in UN:
                f, g = UN[op]; x = float(a[0].v)
                try: v = f(x); e = g(x, a[0].e + (0 if Fraction(x) == a[0].v else abs(x)*2.3e-16))
                except (ValueError, OverflowError): raise Inexact
                if e is None: raise Inexact
                return Val(F(v), e + abs(v)*(LIBM if ty == 'f32' else 5e-16) + 1e-44)
            if op == 'atan2':
                y, x = a; fy, fx = float(y.v), float(x.v); h = math.hypot(fx, fy); e = x.e + y.e
                if h <= 4*e or h == 0 or (fx <= x.e and abs(fy) <= 2*y.e): raise Inexact
                v = math.atan2(fy, fx)
                return Val(F(v), 2*e/h + abs(v)*(LIBM if ty == 'f32' else 5e-16))
            if op == 'frombits':
                v = D.bits_f32(a[0])
                if ty != 'f32' or not math.isfinite(v) or v == 0: raise Inexact
                return Val(Fraction(v))
            raise Inexact
        if op in exact.CMP:
            x, y = a; d = abs(x.v-y.v)
            if x.e == 0 and y.e == 0 or d > F(3*(x.e+y.e)): return int(exact.CMP[op](x.v, y.v))
            return None
        if op == 'not': return None if a[0] is None else 1-a[0]
        if op == 'xor' and ty == 'i1': return None if None in a else a[0] ^ a[1]
        if op in ('fptosi', 'fptoui'):
            x = a[0]; e = F(x.e)*2
            if math.trunc(x.v-e) != math.trunc(x.v+e): raise Inexact
            return exact.Exact.node(self, n, [x.v])
        if any(x is None for x in a): raise Inexact
        if any(isinstance(x, Val) for x in a):
            if any(isinstance(x, Val) and x.e for x in a): raise Inexact
            a = [x.v if isinstance(x, Val) else x for x in a]
        return exact.Exact.node(self, n, a)

def fails(claim, assumes, rules, env):
    """(deviation, bound) if the claim definitely fails at env whatever the rounding; None otherwise"""
    ev = Run(exact.fr(env), {nm for nm, _ in rules}); kind, a, b, _ = claim
    try:
        for nm, nd in rules:
            x, y = ev(D.var(nm)), ev(nd)
            if not abs(x.v*x.v - y.v) <= F(4*(2*abs(float(x.v))*x.e + y.e + 1e-9)): return None
        for t in assumes:
            if ev(t) != 1: return None
        if kind == 'eq':
            x, y = ev(a), ev(b); d = float(x.v-y.v); e = x.e+y.e
            return (d, e, float(x.v), float(y.v)) if abs(d) > 3*e and d else None
        return (1.0, 0.0, 0.0, 0.0) if ev(a) == 0 else None
    except (Inexact, ZeroDivisionError, OverflowError): return None
