"""Symbolic executor over the parsed IR.  Branches on symbolic conditions are executed on both sides up to the
immediate post-dominator and merged into if-then-else values; every memory access is checked."""
import sys, math
from . import dag as D
from .ir import I, F32, F64, PTR, VOID, IRError

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass

class Obj:
    __slots__ = ('id', 'name', 'size', 'align', 'kind', 'const')
    _n = [0]
    def __init__(self, name, size, align, kind, const=False):
        self.name = name; self.size = size; self.align = align; self.kind = kind; self.const = const
        Obj._n[0] += 1; self.id = Obj._n[0]

class Ptr:
    __slots__ = ('alts',)      # list of (cond, obj|None, off)
    def __init__(self, alts): self.alts = alts
    def add(self, k):
        return Ptr([(c, o, f + k) for c, o, f in self.alts]) if k else self

def ptr(obj, off=0): return Ptr([(D.TRUE, obj, off)])
NULL = Ptr([(D.TRUE, None, 0)])

class State:
    __slots__ = ('mem', 'owned', 'pc')
    def __init__(self): self.mem = {}; self.owned = set(); self.pc = D.TRUE
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc = self.pc
        self.owned = set()
        return s
    def cells(self, oid, write=False):
        c = self.mem.get(oid)
        if c is None:
            c = self.mem[oid] = {}; self.owned.add(oid); return c
        if write and oid not in self.owned:
            c = self.mem[oid] = dict(c); self.owned.add(oid)
        return c

def tyname(t):
    return ('f%d' if t[0] == 'f' else 'i%d') % t[1]

LIBM = {'sinf': 'sin', 'cosf': 'cos', 'tanf': 'tan', 'asinf': 'asin', 'acosf': 'acos', 'atanf': 'atan', 'atan2f': 'atan2',
        'powf': 'pow', 'expf': 'exp', 'logf': 'log', 'fmodf': 'fmod', 'floorf': 'floor', 'ceilf': 'ceil', 'roundf': 'round',
        'truncf': 'ftrunc', 'sqrtf': 'sqrt', 'fabsf': 'fabs', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin',
        'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2', 'pow': 'pow', 'exp': 'exp', 'log': 'log', 'fmod': 'fmod',
        'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'trunc': 'ftrunc', 'sqrt': 'sqrt', 'fabs': 'fabs', 'cbrtf': 'cbrt',
        'rintf': 'rint', 'nearbyintf': 'rint', 'hypotf': 'hypot', 'exp2f': 'exp2', 'sincosf': None}

class Exec:
    def __init__(self, mod, loop_bound=40, max_steps=400000, endian='little'):
        self.mod = mod; self.loop_bound = loop_bound; self.max_steps = max_steps
        self.events = []; self.steps = 0; self.forks = 0; self.gobj = {}
        self.written = set()     # (obj.name, off) of parameter cells ever stored
        self.readset = set()     # (obj.name, off) of parameter cells ever loaded
        self.funcs = set()
        self.branch_on_undef = []
        self.inputs = {}         # (obj id) -> dict off->Node initial
        self.accesses = 0
        self.record = False; self.acc = []; self.branches = []

    # ------------------------------------------------------------ memory
    def event(self, st, kind, desc, cond=None, obj=None):
        c = st.pc if cond is None else D.and_(st.pc, cond)
        if D.isc(c) and not c.val: return
        self.events.append((kind, c, desc, obj.name if obj else None))

    def check(self, st, cond, obj, off, size, align, rw):
        self.accesses += 1
        if self.record: self.acc.append((D.and_(st.pc, cond), obj, off, size, align, rw))
        if obj is None:
            self.event(st, 'null', '%s through null pointer' % rw, cond); return False
        if off < 0 or off + size > obj.size:
            self.event(st, 'oob', '%s of %d bytes at offset %d of %s (size %d)' % (rw, size, off, obj.name, obj.size), cond, obj); return False
        if align > 1 and (off % align or obj.align % align):
            self.event(st, 'align', '%s at %s+%d assumes %d-byte alignment, object guarantees %d' % (rw, obj.name, off, align, obj.align), cond, obj)
        if rw == 'store' and obj.const:
            self.event(st, 'constwrite', 'store to constant %s' % obj.name, cond, obj); return False
        return True

    def raw_load(self, st, obj, off, size):
        """-> list of integer/float nodes covering [off, off+size) as (node) parts (little endian)"""
        cells = st.cells(obj.id)
        if obj.kind == 'param':
            for k in range(off, off+size): self.readset.add((obj.name, k))
        c = cells.get(off)
        if c is not None and c[0] == size: return c[1]
        parts = []; pos = off; end = off + size
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                parts.append(c[1]); pos += c[0]; continue
            # find covering cell
            found = None
            for b in range(pos, max(-1, pos-32), -1):
                c = cells.get(b)
                if c is not None:
                    if b + c[0] > pos: found = (b, c)
                    break
            if found:
                b, c = found
                v = c[1]
                if isinstance(v, Ptr): raise Unsupported('partial pointer load')
                v = D.tobits(v) if v.ty[0] == 'f' else v
                n = min(end, b + c[0]) - pos
                parts.append(D.slice_(v, (pos-b)*8, n*8)); pos += n; continue
            n = 1
            # extend the undefined run
            while pos + n < end and n < 4 and not self._covered(cells, pos+n): n += 1
            parts.append(D.undef('%s+%d' % (obj.name, pos), 'i%d' % (8*n))); pos += n
        if len(parts) == 1: return parts[0]
        if any(isinstance(p, Ptr) for p in parts): raise Unsupported('pointer in concat')
        return D.cat([D.tobits(p) if p.ty[0] == 'f' else p for p in parts])

    def _covered(self, cells, pos):
        for b in range(pos, max(-1, pos-32), -1):
            c = cells.get(b)
            if c is not None: return b + c[0] > pos
        return False

    def raw_store(self, st, obj, off, size, v):
        if obj.kind == 'param':
            for k in range(off, off+size): self.written.add((obj.name, k))
        cells = st.cells(obj.id, True)
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v); return
        # split overlapping cells
        for b in list(cells):
            s, w = cells[b]
            if b < off + size and b + s > off:
                del cells[b]
                if b < off:
                    if isinstance(w, Ptr): continue
                    x = D.tobits(w) if w.ty[0] == 'f' else w
                    cells[b] = (off-b, D.slice_(x, 0, (off-b)*8))
                if b + s > off + size:
                    if isinstance(w, Ptr): continue
                    x = D.tobits(w) if w.ty[0] == 'f' else w
                    n = b+s-(off+size)
                    cells[off+size] = (n, D.slice_(x, (off+size-b)*8, n*8))
        cells[off] = (size, v)

    def conv(self, v, ty):
        """raw value -> scalar of IR type"""
        if ty[0] == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, D.Node) and v.op == 'undef': return NULL
            raise Unsupported('int loaded as pointer')
        if isinstance(v, Ptr): raise Unsupported('pointer loaded as int')
        want = tyname(ty)
        if v.ty == want: return v
        if want[0] == 'f':
            if v.ty[0] == 'f': raise Unsupported('float size mismatch')
            return D.frombits(v, want)
        if v.ty[0] == 'f': v = D.tobits(v)
        if D.bits_of(v.ty) == D.bits_of(want): return v
        if D.bits_of(want) < D.bits_of(v.ty): return D.trunc(v, want)
        raise Unsupported('conv %s %s' % (v.ty, want))

    def load_at(self, st, obj, off, ty):
        k = ty[0]
        if k in ('vec', 'arr'):
            es = self.mod.size(ty[2]) if k == 'vec' else self.mod.asize(ty[2])
            if ty[2] == ('i', 1): raise Unsupported('load <n x i1>')
            return tuple(self.load_at(st, obj, off + i*es, ty[2]) for i in range(ty[1]))
        if k == 'st':
            return tuple(self.load_at(st, obj, off + self.mod.field(ty, i)[0], e) for i, e in enumerate(ty[1]))
        sz = self.mod.size(ty)
        v = self.raw_load(st, obj, off, sz)
        if ty == ('i', 1):
            return D.trunc(self.conv(v, ('i', 8)), 'i1')
        return self.conv(v, ty)

    def undef_of(self, ty, nm='u'):
        k = ty[0]
        if k in ('vec', 'arr'): return tuple(self.undef_of(ty[2], nm) for _ in range(ty[1]))
        if k == 'st': return tuple(self.undef_of(e, nm) for e in ty[1])
        if k == 'ptr': return NULL
        return D.undef(nm, tyname(ty))
    def zero_of(self, ty):
        k = ty[0]
        if k in ('vec', 'arr'): return tuple(self.zero_of(ty[2]) for _ in range(ty[1]))
        if k == 'st': return tuple(self.zero_of(e) for e in ty[1])
        if k == 'ptr': return NULL
        if k == 'f': return D.fbits(0, tyname(ty))
        return D.iconst(0, tyname(ty))

    def load(self, st, p, ty, align=1):
        sz = self.mod.size(ty); res = None
        for c, o, f in reversed(p.alts):
            if not self.check(st, c, o, f, sz, align, 'load'): v = self.undef_of(ty, 'oob')
            else: v = self.load_at(st, o, f, ty)
            res = v if res is None else self.ite_val(c, v, res)
        return res

    def store_at(self, st, obj, off, ty, v):
        k = ty[0]
        if k in ('vec', 'arr'):
            if ty[2] == ('i', 1): raise Unsupported('store <n x i1>')
            es = self.mod.size(ty[2]) if k == 'vec' else self.mod.asize(ty[2])
            for i in range(ty[1]): self.store_at(st, obj, off + i*es, ty[2], v[i])
            return
        if k == 'st':
            for i, e in enumerate(ty[1]): self.store_at(st, obj, off + self.mod.field(ty, i)[0], e, v[i])
            return
        if ty == ('i', 1): v = D.zext(v, 'i8')
        if isinstance(v, D.Node) and v.op == 'concat':
            pos = off
            for q in v.args:
                n = D.bits_of(q.ty)
                if n % 8: break
            else:
                for q in v.args:
                    n = D.bits_of(q.ty)//8
                    self.raw_store(st, obj, pos, n, q); pos += n
                return
        self.raw_store(st, obj, off, self.mod.size(ty), v)

    def store(self, st, p, ty, v, align=1):
        sz = self.mod.size(ty)
        if len(p.alts) == 1:
            c, o, f = p.alts[0]
            if self.check(st, c, o, f, sz, align, 'store'): self.store_at(st, o, f, ty, v)
            return
        for c, o, f in p.alts:
            if not self.check(st, c, o, f, sz, align, 'store'): continue
            old = self.load_at(st, o, f, ty)
            self.store_at(st, o, f, ty, self.ite_val(c, v, old))

    def ite_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, tuple): return tuple(self.ite_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr):
            if D.isc(c): return a if c.val else b
            alts = {}
            for cc, o, f in a.alts: alts[(o, f)] = D.and_(c, cc)
            for cc, o, f in b.alts:
                k = (o, f); x = D.and_(D.not_(c), cc)
                alts[k] = D.or_(alts[k], x) if k in alts else x
            return Ptr([(x, k[0], k[1]) for k, x in alts.items() if not (D.isc(x) and not x.val)])
        if a.op == 'undef' and b.op == 'undef': return a
        return D.ite(c, a, b)

    def copy(self, st, dst, src, n, kind='memcpy'):
        if n == 0: return
        if len(dst.alts) != 1: raise Unsupported('memcpy via symbolic pointer')
        _, do, df = dst.alts[0]
        pieces = None
        if len(src.alts) == 1:
            _, so, sf = src.alts[0]
            if not self.check(st, D.TRUE, so, sf, n, 1, 'load'): return
            if not self.check(st, D.TRUE, do, df, n, 1, 'store'): return
            cells = st.cells(so.id)
            if so.kind == 'param':
                for k in range(sf, sf+n): self.readset.add((so.name, k))
            # copy whole cells if possible
            ks = sorted(b for b in cells if b < sf+n and b + cells[b][0] > sf)
            ok = all(b >= sf and b + cells[b][0] <= sf+n for b in ks)
            if not ok:
                # fall back to 4-byte pieces
                vals = []
                pos = 0
                while pos < n:
                    w = 4 if n - pos >= 4 else 1
                    vals.append((pos, w, self.raw_load(st, so, sf+pos, w))); pos += w
            else:
                vals = [(b-sf, cells[b][0], cells[b][1]) for b in ks]
                cov = set()
                for b, s, _ in vals: cov.update(range(b, b+s))
                for k in range(n):
                    if k not in cov: vals.append((k, 1, D.undef('%s+%d' % (so.name, sf+k), 'i8')))
            for b, s, v in vals: self.raw_store(st, do, df+b, s, v)
            return
        # symbolic source: load as words
        pos = 0
        while pos < n:
            w = 4 if n - pos >= 4 else 1
            v = self.load(st, src.add(pos), ('i', 8*w))
            self.store(st, dst.add(pos), ('i', 8*w), v); pos += w

    # ------------------------------------------------------------ values
    def globalptr(self, st, name):
        if name in self.gobj: 
            o = self.gobj[name]
        elif name in self.mod.ftext or name in self.mod.decls:
            o = self.gobj[name] = Obj('@fn.'+name, 0, 1, 'fn', True)
        else:
            ty, init, const = self.mod.global_(name)
            o = Obj('@'+name, self.mod.size(ty), 64, 'global', const)
            self.gobj[name] = o
            tmp = State()
            if init is not None:
                o.const = False
                self.store_at(tmp, o, 0, ty, self.cval(tmp, init, ty))
                o.const = const
            self.ginit = getattr(self, 'ginit', {})
            self.ginit[o.id] = tmp.mem.get(o.id, {})
        if o.kind == 'global' and o.id not in st.mem:
            st.mem[o.id] = self.ginit[o.id]
        return ptr(o)

    def cval(self, st, c, ty):
        k = c[0]
        if k == 'int': return D.iconst(c[1], tyname(ty))
        if k == 'fp': return D.fbits(c[1], tyname(ty))
        if k == 'undef': return self.undef_of(ty, 'undef')
        if k == 'zero': return self.zero_of(ty)
        if k == 'null': return NULL
        if k == 'agg': return tuple(self.cval(st, v, t) for t, v in c[1])
        if k == 'g': return self.globalptr(st, c[1])
        if k == 'gep':
            base = self.cval(st, c[2][0][1], PTR)
            return self.gep(c[1], base, [(t, self.cval(st, v, t)) for t, v in c[2][1:]])
        raise Unsupported('constant %r' % (c,))

    def val(self, st, env, v, ty):
        if v[0] == 'r':
            return env[v[1]]
        return self.cval(st, v[1], ty)

    def choices(self, n, depth=0):
        """possible constant values of an integer node: list of (cond, int)"""
        if D.isc(n): return [(D.TRUE, D.sval(n))]
        if n.op == 'ite' and depth < 12:
            out = {}
            for c, sub in ((n.args[0], n.args[1]), (D.not_(n.args[0]), n.args[2])):
                for cc, k in self.choices(sub, depth+1):
                    x = D.and_(c, cc); out[k] = D.or_(out[k], x) if k in out else x
            return [(c, k) for k, c in out.items() if not (D.isc(c) and not c.val)]
        if n.op in ('zext', 'sext') :
            if n.args[0].ty == 'i1': return [(n.args[0], 1 if n.op == 'zext' else -1), (D.not_(n.args[0]), 0)]
            ub = self.ubound(n.args[0])
            if ub is not None and ub <= 64:
                return [(D.icmp('eq', n.args[0], D.iconst(i, n.args[0].ty)), i) for i in range(ub+1)]
            ch = self.choices(n.args[0], depth+1)
            if n.op == 'sext': return ch
            m = (1 << D.bits_of(n.args[0].ty)) - 1
            return [(c, k & m) for c, k in ch]
        ub = self.ubound(n)
        if ub is not None and ub <= 64:
            return [(D.icmp('eq', n, D.iconst(i, n.ty)), i) for i in range(ub+1)]
        if n.op in ('add', 'sub', 'mul') :
            a = self.choices(n.args[0], depth+1); b = self.choices(n.args[1], depth+1)
            out = {}
            for ca, x in a:
                for cb, y in b:
                    k = {'add': x+y, 'sub': x-y, 'mul': x*y}[n.op]
                    c = D.and_(ca, cb)
                    if D.isc(c) and not c.val: continue
                    out[k] = D.or_(out[k], c) if k in out else c
            return [(c, k) for k, c in out.items()]
        raise Unsupported('unbounded symbolic index ' + D.show(n, 4))

    def ubound(self, n):
        if D.isc(n): return n.val
        if n.op == 'and':
            bs = [self.ubound(a) for a in n.args]
            bs = [b for b in bs if b is not None]
            return min(bs) if bs else None
        if n.op == 'zext': return self.ubound(n.args[0])
        if n.op == 'urem' and D.isc(n.args[1]) and n.args[1].val: return n.args[1].val-1
        if n.op in ('lshr', 'ashr') and D.isc(n.args[1]) and n.args[1].val < D.bits_of(n.ty):
            if n.op == 'ashr':
                u = self.ubound(n.args[0])
                if u is None or u >> (D.bits_of(n.ty)-1): return None
                return u >> n.args[1].val
            u = self.ubound(n.args[0])
            return (u if u is not None else (1 << D.bits_of(n.ty))-1) >> n.args[1].val
        if D.bits_of(n.ty) <= 5: return (1 << D.bits_of(n.ty))-1
        return None

    def gep(self, bt, base, idx):
        if not isinstance(base, Ptr): raise Unsupported('vector gep')
        p = base; t = bt
        for k, (it, v) in enumerate(idx):
            if k == 0: sc = self.mod.asize(bt)
            elif t[0] in ('arr', 'vec'):
                t = t[2]; sc = self.mod.asize(t)
            elif t[0] == 'st':
                off, t = self.mod.field(t, v.val); p = p.add(off); continue
            else: raise Unsupported('gep into %r' % (t,))
            if D.isc(v): p = p.add(D.sval(v)*sc)
            else:
                ch = self.choices(v); alts = {}
                for c, o, f in p.alts:
                    for cc, i in ch:
                        x = D.and_(c, cc); key = (o, f + i*sc)
                        alts[key] = D.or_(alts[key], x) if key in alts else x
                p = Ptr([(x, kk[0], kk[1]) for kk, x in alts.items()])
        return p

    # ------------------------------------------------------------ execution
    def call(self, name, st, args, depth=0):
        f = self.mod.func(name)
        if f is None: raise Unsupported('undefined function ' + name)
        if depth > 40: raise Unsupported('recursion')
        self.funcs.add(name)
        env = {}
        for (ty, nm), a in zip(f.params, args): env[nm] = a
        self._depth = depth
        r = self.run(f, st, env, f.entry, None, None, depth, {})
        if r is None: return None, None       # no path returns
        return r[1], r[2]

    def run(self, f, st, env, bb, prev, stop, depth, loopc):
        """execute from bb until stop (exclusive).  -> ('stop', st, phis, None) | ('ret', st, value) | None if dead"""
        phis = None
        while True:
            if bb == stop and stop is not None:
                return ('stop', st, self.eval_phis(f, st, env, bb, prev) if phis is None else phis)
            ins = f.blocks[bb]
            k = 0
            if ins[0][0] == 'phi':
                pv = self.eval_phis(f, st, env, bb, prev) if phis is None else phis
                while ins[k][0] == 'phi':
                    env[ins[k][1]] = pv[ins[k][1]]; k += 1
            phis = None
            n = len(ins)
            while k < n - 1:
                self.inst(st, env, ins[k], depth); k += 1
            t = ins[-1]
            self.steps += n
            if self.steps > self.max_steps: raise Unsupported('step budget')
            op = t[0]
            if op == 'ret':
                return ('ret', st, None if t[3] is None else self.val(st, env, t[3], t[2]))
            if op == 'br': prev, bb = bb, t[2]; continue
            if op == 'unreachable': return None
            if op == 'cbr':
                c = self.val(st, env, t[2], I(1))
                if not D.isc(c): c = self.known(st, c)
                if D.isc(c): prev, bb = bb, (t[3] if c.val else t[4]); continue
                targets = [(c, t[3]), (D.not_(c), t[4])]
            elif op == 'switch':
                v = self.val(st, env, t[3], t[2]); targets = []; rest = D.TRUE; grouped = {}
                for cv, lb in t[5]:
                    e = D.icmp('eq', v, self.cval(st, cv, t[2]))
                    e2 = D.and_(rest, e); rest = D.and_(rest, D.not_(e))
                    grouped[lb] = D.or_(grouped[lb], e2) if lb in grouped else e2
                grouped[t[4]] = D.or_(grouped[t[4]], rest) if t[4] in grouped else rest
                targets = [(c, lb) for lb, c in grouped.items() if not (D.isc(c) and not c.val)]
                if len(targets) == 1: prev, bb = bb, targets[0][1]; continue
            else:
                raise Unsupported('terminator ' + op)
            self.forks += 1
            if self.record: self.branches.extend((st.pc, c) for c, lb in targets)
            j = f.ipdom[bb]
            lc = dict(loopc); lc[bb] = lc.get(bb, 0) + 1
            if lc[bb] > self.loop_bound:
                self.event(st, 'unwind', 'loop bound %d reached in %s' % (self.loop_bound, f.name)); return None
            results = []
            base_pc = st.pc
            for i, (c, lb) in enumerate(targets):
                last = i == len(targets)-1
                s2 = st if last else st.fork()
                e2 = env if last else dict(env)
                s2.pc = D.and_(base_pc, c)
                if D.isc(s2.pc) and not s2.pc.val: continue
                r = self.run(f, s2, e2, lb, bb, j, depth, lc)
                if r is not None: results.append((c, r, e2))
            if not results: return None
            # merge
            c, r, e2 = results[-1]
            acc = r; 
            pc = r[1].pc
            for c2, r2, e3 in reversed(results[:-1]):
                acc = self.merge(c2, r2, acc)
                pc = D.or_(pc, r2[1].pc)
            if len(results) == len(targets) and all(x[1][1].pc is D.and_(base_pc, x[0]) for x in results): pc = base_pc
            env = e2
            st = acc[1]; st.pc = pc
            if acc[0] == 'ret': return acc
            phis = acc[2]
            bb, prev = j, None

    def known(self, st, c):
        # syntactic: is c (or its negation) a conjunct of the path condition
        neg = D.not_(c)
        stack = [st.pc]; n = 0
        while stack and n < 200:
            x = stack.pop(); n += 1
            if x is c: return D.TRUE
            if x is neg: return D.FALSE
            if x.op == 'and' and x.ty == 'i1': stack.extend(x.args)
        return c

    def eval_phis(self, f, st, env, bb, prev):
        out = {}
        for ins in f.blocks[bb]:
            if ins[0] != 'phi': break
            for v, b in ins[3]:
                if b == prev:
                    out[ins[1]] = self.val(st, env, v, ins[2]); break
            else: raise Unsupported('phi')
        return out

    def merge(self, c, a, b):
        """value a under condition c else b"""
        if a[0] != b[0]: raise Unsupported('mixed merge')
        sa, sb = a[1], b[1]
        st = State(); st.pc = sb.pc
        ids = set(sa.mem) | set(sb.mem)
        for i in ids:
            x = sa.mem.get(i); y = sb.mem.get(i)
            if x is y or y is None: st.mem[i] = x if x is not None else y; continue
            if x is None: st.mem[i] = y; continue
            if x == y: st.mem[i] = y; continue
            out = {}
            offs = sorted(set(x) | set(y))
            # align cells
            bad = [o for o in offs if (o in x) != (o in y) or (o in x and x[o][0] != y[o][0])]
            if not bad:
                for o in offs:
                    u, v = x[o], y[o]
                    out[o] = u if u[1] is v[1] else (u[0], self.ite_mixed(c, u[1], v[1]))
            else:
                out = self.merge_bytes(c, x, y)
            st.mem[i] = out
        st.owned = set()
        third = None
        if a[0] == 'ret':
            third = None if a[2] is None else self.ite_val(c, a[2], b[2])
        else:
            third = {k: self.ite_val(c, a[2][k], b[2][k]) for k in a[2]}
        return (a[0], st, third)

    def ite_mixed(self, c, u, v):
        if isinstance(u, Ptr) or isinstance(v, Ptr):
            if isinstance(u, Ptr) and isinstance(v, Ptr): return self.ite_val(c, u, v)
            if isinstance(u, D.Node) and u.op == 'undef': return v
            if isinstance(v, D.Node) and v.op == 'undef': return u
            raise Unsupported('merge ptr/int')
        if u.ty != v.ty:
            if u.ty[0] == 'f': u, v = u, D.frombits(v, u.ty)
            else: u = D.frombits(u, v.ty)
        return D.ite(c, u, v)

    def merge_bytes(self, c, x, y):
        out = {}
        bounds = set()
        for m in (x, y):
            for o, (s, _) in m.items(): bounds.add(o); bounds.add(o+s)
        bl = sorted(bounds)
        def get(m, a, b):
            for o, (s, v) in m.items():
                if o <= a and b <= o+s:
                    if o == a and s == b-a: return v
                    if isinstance(v, Ptr): raise Unsupported('split ptr')
                    w = D.tobits(v) if v.ty[0] == 'f' else v
                    return D.slice_(w, (a-o)*8, (b-a)*8)
            return D.undef('m+%d' % a, 'i%d' % (8*(b-a)))
        for a, b in zip(bl, bl[1:]):
            u = get(x, a, b); v = get(y, a, b)
            out[a] = (b-a, u if u is v else self.ite_mixed(c, u, v))
        return out

    # ------------------------------------------------------------ instructions
    def vmap(self, ty, f, *vs):
        if ty[0] == 'vec': return tuple(f(ty[2], *xs) for xs in zip(*vs))
        return f(ty, *vs)

    def inst(self, st, env, ins, depth):
        op = ins[0]
        if op == 'load':
            env[ins[1]] = self.load(st, self.val(st, env, ins[3], PTR), ins[2], ins[4])
        elif op == 'store':
            self.store(st, self.val(st, env, ins[4], PTR), ins[2], self.val(st, env, ins[3], ins[2]), ins[5])
        elif op == 'gep':
            idx = [(t, self.val(st, env, v, t)) for t, v in ins[4]]
            env[ins[1]] = self.gep(ins[2], self.val(st, env, ins[3], PTR), idx)
        elif op == 'bin':
            a = self.val(st, env, ins[4], ins[3]); b = self.val(st, env, ins[5], ins[3])
            env[ins[1]] = self.binop(ins[2], ins[3], a, b)
        elif op == 'alloca':
            n = 1
            if ins[3]:
                c = self.val(st, env, ins[3][1], ins[3][0])
                if not D.isc(c): raise Unsupported('vla')
                n = c.val
            o = Obj('local%' + str(ins[1]), self.mod.asize(ins[2])*n, ins[4], 'alloca')
            st.mem[o.id] = {}; st.owned.add(o.id)
            env[ins[1]] = ptr(o)
        elif op == 'call':
            env[ins[1]] = self.docall(st, env, ins, depth)
        elif op == 'fneg':
            v = self.val(st, env, ins[3], ins[2]); env[ins[1]] = self.vmap(ins[2], lambda t, x: D.fneg(x), v)
        elif op == 'fcmp':
            a = self.val(st, env, ins[4], ins[3]); b = self.val(st, env, ins[5], ins[3])
            env[ins[1]] = self.vmap(ins[3], lambda t, x, y: D.fcmp(ins[2], x, y), a, b)
        elif op == 'icmp':
            a = self.val(st, env, ins[4], ins[3]); b = self.val(st, env, ins[5], ins[3])
            if ins[3] == PTR: env[ins[1]] = self.ptrcmp(ins[2], a, b)
            else: env[ins[1]] = self.vmap(ins[3], lambda t, x, y: D.icmp(ins[2], x, y), a, b)
        elif op == 'cast':
            env[ins[1]] = self.cast(ins[2], ins[3], self.val(st, env, ins[4], ins[3]), ins[5])
        elif op == 'select':
            c = self.val(st, env, ins[3], ins[2]); a = self.val(st, env, ins[5], ins[4]); b = self.val(st, env, ins[6], ins[4])
            if isinstance(c, tuple): env[ins[1]] = tuple(self.ite_val(x, y, z) for x, y, z in zip(c, a, b))
            else: env[ins[1]] = self.ite_val(c, a, b)
        elif op == 'shufflevector':
            a = self.val(st, env, ins[3], ins[2]); b = self.val(st, env, ins[4], ins[2]); v = a + b
            m = self.val(st, env, ins[6], ins[5])
            env[ins[1]] = tuple(v[x.val] if x.op != 'undef' else self.undef_of(ins[2][2]) for x in m)
        elif op == 'extractelement':
            v = self.val(st, env, ins[3], ins[2]); i = self.val(st, env, ins[4], I(32))
            if not D.isc(i):
                r = None
                for c, k in self.choices(i):
                    r = v[k] if r is None else self.ite_val(c, v[k], r)
                env[ins[1]] = r
            else: env[ins[1]] = v[i.val]
        elif op == 'insertelement':
            v = list(self.val(st, env, ins[3], ins[2])); e = self.val(st, env, ins[5], ins[4]); i = self.val(st, env, ins[6], I(32))
            if not D.isc(i): raise Unsupported('insertelement index')
            v[i.val] = e; env[ins[1]] = tuple(v)
        elif op == 'extractvalue':
            v = self.val(st, env, ins[3], ins[2])
            for i in ins[4]: v = v[i]
            env[ins[1]] = v
        elif op == 'insertvalue':
            v = self.val(st, env, ins[3], ins[2]); e = self.val(st, env, ins[5], ins[4])
            env[ins[1]] = self.insv(v, ins[6], e)
        elif op == 'freeze': env[ins[1]] = self.val(st, env, ins[3], ins[2])
        elif op == 'nop': pass
        else: raise Unsupported('instruction ' + str(ins)[:120])

    def insv(self, v, idx, e):
        l = list(v)
        l[idx[0]] = e if len(idx) == 1 else self.insv(l[idx[0]], idx[1:], e)
        return tuple(l)

    def ptrcmp(self, pred, a, b):
        r = D.FALSE
        for c1, o1, f1 in a.alts:
            for c2, o2, f2 in b.alts:
                e = (o1 is o2 and f1 == f2)
                if o1 is o2 and pred not in ('eq', 'ne'):
                    p = pred[1:]
                    e = {'lt': f1 < f2, 'le': f1 <= f2, 'gt': f1 > f2, 'ge': f1 >= f2}[p]
                elif pred not in ('eq', 'ne'): raise Unsupported('pointer order')
                if pred == 'ne': e = not e
                if e: r = D.or_(r, D.and_(c1, c2))
        return r

    def binop(self, op, ty, a, b):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return self.vmap(ty, lambda t, x, y: D.fbin(op, x, y), a, b)
        if op == 'frem': return self.vmap(ty, lambda t, x, y: D.fun('fmod', x, y), a, b)
        return self.vmap(ty, lambda t, x, y: D.ibin(op, x, y), a, b)

    def flat(self, ty, v):
        """vector/scalar -> single integer node"""
        if ty[0] == 'vec':
            return D.cat([D.tobits(x) if x.ty[0] == 'f' else x for x in v])
        return D.tobits(v) if v.ty[0] == 'f' else v

    def cast(self, op, st_, v, dt):
        if op == 'bitcast':
            if isinstance(v, Ptr): return v
            if st_ == dt: return v
            # same element width: element-wise
            if st_[0] == 'vec' and dt[0] == 'vec' and st_[1] == dt[1] and st_[2][1] == dt[2][1]:
                return tuple(self.bc(x, dt[2]) for x in v)
            w = self.flat(st_, v)
            if dt[0] == 'vec':
                n = dt[2][1]
                return tuple(self.bc(D.slice_(w, i*n, n), dt[2]) for i in range(dt[1]))
            return self.bc(w, dt)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            raise Unsupported(op)
        def f(x):
            t = dt[2] if dt[0] == 'vec' else dt
            want = tyname(t)
            if x.op == 'undef': return D.undef(x.val, want)
            if op == 'zext': return D.zext(x, want)
            if op == 'sext': return D.sext(x, want)
            if op == 'trunc': return D.trunc(x, want)
            if op in ('sitofp', 'uitofp'):
                if D.isc(x):
                    return D.fconst(float(D.sval(x) if op == 'sitofp' else x.val), want)
                if D._constite(x):
                    return D.ite(x.args[0], f(x.args[1]), f(x.args[2]))
                return D.mk(op, want, (x,))
            if op in ('fptosi', 'fptoui'):
                if D.isc(x):
                    fv = D.fval(x)
                    if fv == fv and abs(fv) < 2**30: return D.iconst(int(fv), want)
                return D.mk(op, want, (x,))
            if op == 'fpext':
                if D.isc(x): return D.fconst(D.fval(x), want)
                return D.mk('fpext', want, (x,))
            if op == 'fptrunc':
                if D.isc(x): return D.fconst(D.fval(x), want)
                return D.mk('fptrunc', want, (x,))
            raise Unsupported(op)
        return tuple(f(x) for x in v) if st_[0] == 'vec' else f(v)

    def bc(self, x, t):
        want = tyname(t)
        if x.ty == want: return x
        if want[0] == 'f':
            return D.frombits(x, want)
        return D.tobits(x) if x.ty[0] == 'f' else x

    # ------------------------------------------------------------ calls
    def docall(self, st, env, ins, depth):
        _, dest, rt, callee, args = ins
        if callee[0] != '@': raise Unsupported('indirect call')
        name = callee[1:].strip('"')
        A = [self.val(st, env, v, t) for t, v in args]
        if name in self.mod.ftext:
            s2, r = self.call(name, st, A, depth+1)
            if s2 is None: raise Unsupported('callee never returns')
            # s2 may be a fresh State object: transplant
            st.mem = s2.mem; st.owned = s2.owned if s2 is not st else st.owned
            if s2 is not st: st.owned = set()
            st.pc = s2.pc
            return r
        from .intrin import intrinsic
        return intrinsic(self, st, name, rt, A, [t for t, _ in args])
