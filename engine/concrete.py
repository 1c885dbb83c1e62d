"""Vectorised concrete evaluation of DAGs.  mode 'ieee': every node in its own IEEE type (what the machine does);
mode 'real': all floats in float64 (numeric approximation of the real-number semantics)."""
import math
from fractions import Fraction
import numpy as np
from . import dag as D

def _f(ty): return np.float32 if ty == 'f32' else np.float64

EST = 0.0      # relative error given to estimate instructions

class Eval:
    def __init__(self, env, n, mode='ieee'):
        self.env = env; self.n = n; self.mode = mode; self.memo = {}
    def ft(self, ty):
        return np.float64 if self.mode == 'real' or ty == 'real' else _f(ty)

    def __call__(self, roots):
        with np.errstate(all='ignore'):
            for n in D.postorder(roots):
                if n.id not in self.memo: self.memo[n.id] = self.node(n)
        return [self.memo[r.id] for r in roots]

    def full(self, v, dt): return np.full(self.n, v, dt)

    def node(self, n):
        op = n.op; ty = n.ty; m = self.memo
        a = [m[x.id] for x in n.args]
        isf = ty[0] == 'f' or ty == 'real'
        if op == 'const':
            if ty == 'real': return self.full(float(n.val) if not isinstance(n.val, str) else {'pi': math.pi}[n.val], np.float64)
            if ty[0] == 'f':
                if self.mode == 'real': return self.full(D.fval(n), np.float64)
                return np.full(self.n, n.val, np.uint32 if ty == 'f32' else np.uint64).view(_f(ty))
            if ty == 'i1': return self.full(bool(n.val), bool)
            if D.bits_of(ty) > 64: return self.full(n.val, object)
            return self.full(n.val, np.uint64)
        if op == 'var':
            v = self.env[n.val]
            v = np.broadcast_to(np.asarray(v), (self.n,))
            if isf: return v.astype(self.ft(ty))
            if ty == 'i1': return v.astype(bool)
            if v.dtype.kind == 'i': return v.astype(np.int64).view(np.uint64) & np.uint64((1 << D.bits_of(ty))-1)
            return v.astype(np.uint64)
        if op == 'undef':
            if isf: return self.full(float('nan'), self.ft(ty))
            if ty == 'i1': return self.full(False, bool)
            return self.full(0, np.uint64)
        if isf:
            t = self.ft(ty)
            if op == 'fadd': return (a[0].astype(t)+a[1].astype(t))
            if op == 'fsub': return (a[0].astype(t)-a[1].astype(t))
            if op == 'fmul': return (a[0].astype(t)*a[1].astype(t))
            if op == 'fdiv': return (a[0].astype(t)/a[1].astype(t))
            if op == 'fneg': return -a[0]
            if op == 'fabs': return np.abs(a[0])
            if op == 'sqrt': return np.sqrt(a[0])
            if op == 'ite': return np.where(a[0], a[1].astype(t), a[2].astype(t))
            if op == 'fma':
                if t == np.float32:
                    return (a[0].astype(np.float64)*a[1].astype(np.float64)+a[2].astype(np.float64)).astype(np.float32)
                return a[0]*a[1]+a[2]
            if op == 'rcp': return (t(1)/a[0])*t(1+EST)
            if op == 'rsqrt': return (t(1)/np.sqrt(a[0]))*t(1+EST)
            if op == 'frombits':
                if self.mode == 'real':
                    x = a[0].astype(np.uint32).view(np.float32) if ty == 'f32' else a[0].view(np.float64)
                    return x.astype(np.float64)
                return a[0].astype(np.uint32).view(np.float32) if ty == 'f32' else a[0].view(np.float64)
            if op == 'fpext' or op == 'fptrunc': return a[0].astype(t)
            if op == 'sitofp': return self.signed(a[0], n.args[0].ty).astype(t)
            if op == 'uitofp': return a[0].astype(t)
            f1 = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'exp': np.exp, 'log': np.log,
                  'floor': np.floor, 'ceil': np.ceil, 'ftrunc': np.trunc, 'rint': np.rint, 'cbrt': np.cbrt, 'exp2': np.exp2,
                  'round': lambda x: np.trunc(x + np.copysign(0.5, x))}
            if op in f1:
                x = a[0].astype(np.float64)
                return f1[op](x).astype(t)
            f2 = {'atan2': np.arctan2, 'pow': np.power, 'fmod': np.fmod, 'hypot': np.hypot}
            if op in f2: return f2[op](a[0].astype(np.float64), a[1].astype(np.float64)).astype(t)
            raise NotImplementedError(op)
        # booleans and ints
        if op == 'ite': return np.where(a[0], a[1], a[2])
        if op == 'not': return ~a[0]
        if ty == 'i1' and op in ('and', 'or', 'xor'):
            return a[0] & a[1] if op == 'and' else a[0] | a[1] if op == 'or' else a[0] ^ a[1]
        if op in ('folt', 'fole', 'foeq', 'fone', 'fueq', 'funo'):
            x, y = a
            if x.dtype != y.dtype: x = x.astype(np.float64); y = y.astype(np.float64)
            un = np.isnan(x) | np.isnan(y)
            if op == 'folt': return x < y
            if op == 'fole': return x <= y
            if op == 'foeq': return x == y
            if op == 'fone': return (x != y) & ~un
            if op == 'fueq': return (x == y) | un
            return un
        if op == 'ieq': return a[0] == a[1]
        if op == 'iult': return a[0] < a[1]
        if op == 'islt': return self.signed(a[0], n.args[0].ty) < self.signed(a[1], n.args[1].ty)
        if op == 'bits':
            if self.mode == 'real' or n.args[0].ty == 'real': 
                return a[0].astype(np.float32).view(np.uint32).astype(np.uint64) if n.ty == 'i32' else a[0].astype(np.float64).view(np.uint64)
            return a[0].view(np.uint32).astype(np.uint64) if n.ty == 'i32' else a[0].view(np.uint64).copy()
        if op == 'signbits':
            b = D.bits_of(ty)
            return np.signbit(a[0]).astype(np.uint64) << np.uint64(b-1)
        b = D.bits_of(ty)
        mask = np.uint64((1 << min(b, 64))-1)
        if b > 64 or any(x.dtype == object for x in a): return self.big(n, a)
        if op == 'add': return (a[0]+a[1]) & mask
        if op == 'sub': return (a[0]-a[1]) & mask
        if op == 'mul': return (a[0]*a[1]) & mask
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return a[0] ^ a[1]
        if op in ('shl', 'lshr', 'ashr'):
            s = np.minimum(a[1], np.uint64(63))
            if op == 'shl': return np.where(a[1] < b, (a[0] << s) & mask, np.uint64(0))
            if op == 'lshr': return np.where(a[1] < b, a[0] >> s, np.uint64(0))
            return (self.signed(a[0], ty) >> np.minimum(s, np.uint64(b-1)).astype(np.int64)).view(np.uint64) & mask
        if op in ('sdiv', 'srem'):
            x = self.signed(a[0], ty); y = self.signed(a[1], ty); y2 = np.where(y == 0, 1, y)
            q = np.abs(x)//np.abs(y2); q = np.where((x < 0) == (y2 < 0), q, -q)
            r = q if op == 'sdiv' else x - q*y2
            return r.astype(np.int64).view(np.uint64) & mask
        if op in ('udiv', 'urem'):
            y2 = np.where(a[1] == 0, np.uint64(1), a[1])
            return a[0]//y2 if op == 'udiv' else a[0] % y2
        if op == 'zext': return a[0].astype(np.uint64)
        if op == 'sext':
            if n.args[0].ty == 'i1': return np.where(a[0], mask, np.uint64(0))
            return self.signed(a[0], n.args[0].ty).view(np.uint64) & mask
        if op == 'slice':
            r = (a[0] >> np.uint64(n.val)) & mask
            return r.astype(bool) if ty == 'i1' else r
        if op == 'concat':
            r = np.zeros(self.n, np.uint64); pos = 0
            for x, y in zip(a, n.args):
                r |= x.astype(np.uint64) << np.uint64(pos); pos += D.bits_of(y.ty)
            return r
        if op == 'fptosi': return np.trunc(np.nan_to_num(a[0].astype(np.float64), nan=0, posinf=0, neginf=0)).astype(np.int64).view(np.uint64) & mask
        if op == 'fptoui': return np.trunc(np.nan_to_num(a[0].astype(np.float64), nan=0, posinf=0, neginf=0)).astype(np.int64).view(np.uint64) & mask
        raise NotImplementedError(op + ' ' + ty)

    def big(self, n, a):
        b = D.bits_of(n.ty); out = np.empty(self.n, object)
        a = [x.astype(object) for x in a]
        for i in range(self.n):
            v = [int(x[i]) for x in a]
            if n.op == 'concat':
                r = 0; pos = 0
                for x, y in zip(v, n.args): r |= x << pos; pos += D.bits_of(y.ty)
            elif n.op == 'slice': r = (v[0] >> n.val) & ((1 << b)-1)
            elif n.op == 'and': r = v[0] & v[1]
            elif n.op == 'or': r = v[0] | v[1]
            elif n.op == 'xor': r = v[0] ^ v[1]
            else: raise NotImplementedError('big ' + n.op)
            out[i] = r
        if b <= 64:
            return out.astype(np.uint64) if b > 1 else out.astype(bool)
        return out

    def signed(self, x, ty):
        b = D.bits_of(ty)
        if b == 64: return x.view(np.int64)
        s = np.uint64(1 << (b-1))
        return ((x.astype(np.uint64) ^ s).view(np.int64) - np.int64(1 << (b-1)))
