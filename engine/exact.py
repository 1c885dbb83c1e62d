"""Exact evaluation: rational arithmetic in which every intermediate float32 result is exactly representable.
On such inputs the exact-real meaning of the code and its IEEE execution coincide, so that a claim about ties
(touching boxes, a threshold met exactly) can be judged without any tolerance."""
import math
from fractions import Fraction
import numpy as np
from . import dag as D

class Inexact(Exception): pass
class Soft(Fraction):
    """a constant of the code that stands for a decimal fraction: may be compared with, away from equality"""

def fits(v):
    try: f = float(v)
    except OverflowError: return False
    return Fraction(f) == v and abs(f) < 3e38 and float(np.float32(f)) == f
def isq(n):
    r = math.isqrt(n)
    if r*r != n: raise Inexact
    return r
CMP = {'folt': lambda a, b: a < b, 'fole': lambda a, b: a <= b, 'foeq': lambda a, b: a == b, 'fone': lambda a, b: a != b, 'fueq': lambda a, b: a == b, 'funo': lambda a, b: False}

class Exact:
    def __init__(self, env): self.env = env; self.memo = {}
    def __call__(self, root):
        st = [root]; m = self.memo
        while st:
            n = st[-1]
            if n.id in m: st.pop(); continue
            if n.op == 'ite' or (n.op in ('and', 'or') and n.ty == 'i1'):
                c = n.args[0]
                if c.id not in m: st.append(c); continue
                v = m[c.id]
                if n.op == 'ite': k = n.args[1] if v else n.args[2]
                elif (n.op == 'and') == bool(v): k = n.args[1]
                else: m[n.id] = v; st.pop(); continue
                if k.id not in m: st.append(k); continue
                m[n.id] = m[k.id]; st.pop(); continue
            w = [a for a in n.args if a.id not in m]
            if w: st += w; continue
            m[n.id] = self.node(n, [m[a.id] for a in n.args]); st.pop()
        return m[root.id]
    def node(self, n, a):
        op, ty = n.op, n.ty
        if op == 'const':
            if ty == 'real':
                if isinstance(n.val, str): raise Inexact
                return n.val
            if ty[0] == 'f':
                v = D.fval(n)
                if not math.isfinite(v): raise Inexact
                return Soft(v) if abs(v) > 2**30 or v*65536 != int(v*65536) else Fraction(v)
            return n.val
        if op == 'var':
            if n.val not in self.env: raise Inexact
            return self.env[n.val]
        soft = [x for x in a if isinstance(x, Soft)]
        if soft and (op not in CMP or abs(a[0]-a[1]) <= abs(soft[0])/1000): raise Inexact
        if ty[0] == 'f' or ty == 'real':
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma'):
                if op == 'fdiv' and a[1] == 0: raise Inexact
                r = a[0]+a[1] if op == 'fadd' else a[0]-a[1] if op == 'fsub' else a[0]*a[1] if op == 'fmul' else a[0]/a[1] if op == 'fdiv' else a[0]*a[1]+a[2]
            elif op == 'fneg': r = -a[0]
            elif op == 'fabs': r = abs(a[0])
            elif op == 'sqrt':
                if a[0] < 0: raise Inexact
                r = Fraction(isq(a[0].numerator), isq(a[0].denominator))
            elif op in ('fpext', 'fptrunc'): r = a[0]
            elif op in ('sitofp', 'uitofp'):
                v = a[0]; b = D.bits_of(n.args[0].ty)
                r = Fraction(v - (1 << b) if op == 'sitofp' and b > 1 and v >> (b-1) else v)
            elif op == 'frombits' and ty == 'f32':
                v = D.bits_f32(a[0])
                if not math.isfinite(v) or v == 0: raise Inexact
                r = Fraction(v)
            elif op == 'floor': r = Fraction(math.floor(a[0]))
            elif op == 'ceil': r = Fraction(math.ceil(a[0]))
            elif op == 'ftrunc': r = Fraction(math.trunc(a[0]))
            else: raise Inexact
            if ty == 'f32' and not fits(r): raise Inexact
            return r
        if op in CMP: return int(CMP[op](a[0], a[1]))
        if op == 'not': return 1 - a[0]
        if op == 'xor' and ty == 'i1': return a[0] ^ a[1]
        if op == 'ieq': return int(a[0] == a[1])
        if op == 'zext': return a[0]
        w = D.bits_of(n.args[0].ty) if n.args and n.args[0].ty[0] == 'i' else 0; b = D.bits_of(ty) if ty[0] == 'i' else 0
        sg = lambda v: v - (1 << w) if v >> (w-1) else v
        mask = (1 << b)-1
        if op == 'sext': return (mask if a[0] else 0) if w == 1 else sg(a[0]) & mask
        if op == 'iult': return int(a[0] < a[1])
        if op == 'islt': return int(sg(a[0]) < sg(a[1]))
        if op in ('add', 'sub', 'mul'):
            r = a[0]+a[1] if op == 'add' else a[0]-a[1] if op == 'sub' else a[0]*a[1]
            return r & mask
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return a[0] ^ a[1]
        if op == 'shl': return (a[0] << a[1]) & mask if a[1] < b else 0
        if op == 'lshr': return a[0] >> a[1] if a[1] < b else 0
        if op == 'ashr': return (sg(a[0]) >> min(a[1], b-1)) & mask
        if op == 'slice': return (a[0] >> n.val) & mask
        if op == 'concat':
            r = pos = 0
            for x, y in zip(a, n.args): r |= x << pos; pos += D.bits_of(y.ty)
            return r
        if op in ('bits', 'signbits') and n.args[0].ty == 'f32':
            # the sign of a zero result is not tracked here
            if a[0] == 0 or not fits(a[0]): raise Inexact
            return D.f32bits(float(a[0])) if op == 'bits' else (1 << (b-1) if a[0] < 0 else 0)
        if op in ('fptosi', 'fptoui'):
            v = math.trunc(a[0])
            if not -(1 << (b-1)) <= v < 1 << (b-1): raise Inexact
            return v & mask
        raise Inexact

def fr(env):
    out = {}
    for k, v in env.items():
        if hasattr(v, 'shape'): v = v.reshape(-1)[0]
        if isinstance(v, (float, np.floating)):
            if not np.isfinite(v): continue
            v = Fraction(float(v))
        out[k] = v if isinstance(v, Fraction) else int(v)
    return out

def false_at(claim, assumes, rules, env):
    """claim (kind, a, b, label) is false, exactly, at env; None if that cannot be said"""
    ev = Exact(fr(env)); kind, a, b, _ = claim
    try:
        for t in assumes:
            if not ev(t): return None
        for nm, nd in rules:
            if ev.env.get(nm) is None or ev.env[nm]**2 != ev(nd): return None
        if kind == 'eq':
            x, y = ev(a), ev(b)
            return None if isinstance(x, Soft) or isinstance(y, Soft) else x != y
        return not ev(a)
    except (Inexact, ZeroDivisionError): return None
