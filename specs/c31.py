"""C31 printing: every element once, in row order, to the requested stream, with the configured precision.
The print functions are executed symbolically with the C library's formatted output recorded as guarded events
(format, stream, arguments); what each conversion prints is an assertion over all bit patterns of the elements."""
import subprocess, struct, re, time, random, traceback
from engine import dag as D, build as B, symex, ir, solver, bits as BT
ASSUME = ['fprintf/snprintf/fputs/fputc print their format and arguments as the C standard says (the C library is not encoded; it is the real one on replay)',
          'column alignment (field widths) is not part of the claim']
# name -> (C type of the argument, element type, number of elements, rows: element numbers in print order, header numbers)
def mat(n): return [[j*n+i for j in range(n)] for i in range(n)]
def vec(n): return [list(range(n))]
F = {}
for n in (2, 3, 4):
    F['mat%d' % n] = ('mat%d' % n, 'f32', mat(n), [n, n]); F['vec%d' % n] = ('vec%d' % n, 'f32', vec(n), [n]); F['ivec%d' % n] = ('ivec%d' % n, 'i32', vec(n), [n])
F['versor'] = ('versor', 'f32', vec(4), [4]); F['aabb'] = ('vec3*', 'f32', [[0, 1, 2], [3, 4, 5]], [])
VARIANTS = [('default', [], 5, 1e5), ('precision 2, threshold 100', ['CGLM_PRINT_PRECISION=2', 'CGLM_PRINT_MAX_TO_SHORT=100.0f'], 2, 100.0)]

def protos():
    """(function, kind, by-struct?) of the printing functions present"""
    have = B.source_names(); out = []
    for k in F:
        for pre in ('glm_', 'glms_', 'glmc_'):
            if pre + k + '_print' in have: out.append((pre + k + '_print', k, pre))
    return out
def wrapper(fn, k, pre):
    t = F[k][0]
    if k == 'aabb':
        e = 'vec3s' if pre == 'glms_' else 'vec3'
        # the struct version's parameter type is whatever it is declared as: pass the address
        return 'void w_%s(float *a, const char *tag, FILE *os) { %s((void *)a, tag, os); }\n' % (fn, fn)
    if pre == 'glms_': return 'void w_%s(%ss *a, FILE *os) { %s(*a, os); }\n' % (fn, t, fn)
    return 'void w_%s(%s *a, FILE *os) { %s(*a, os); }\n' % (fn, t, fn)
def source(pre):
    s = '#define CGLM_DEFINE_PRINTS\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <cglm/cglm.h>\n#include <cglm/struct.h>\n'
    if pre == 'glmc_': s = '#define CGLM_LIB_SRC\n' + s + '#include <cglm/call.h>\n'
    return s + ''.join(wrapper(*p) for p in protos() if (p[2] == 'glmc_') == (pre == 'glmc_'))

CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')
def cstr(ex, st, p):
    if len(p.alts) != 1 or p.alts[0][1] is None: raise symex.Unsupported('string')
    _, o, f = p.alts[0]; s = b''
    while True:
        b = ex.load(st, symex.ptr(o, f+len(s)), ('i', 8))
        if not D.isc(b): raise symex.Unsupported('string is not constant')
        if b.val == 0: return s.decode('latin1')
        s += bytes([b.val])
def items(ex, st, fmt, args):
    out = []; pos = 0; args = list(args); fmt = re.sub('\x1b\\[[0-9;]*m', '', fmt)
    for m in CONV.finditer(fmt):
        if m.start() > pos: out.append(('lit', fmt[pos:m.start()]))
        pos = m.end(); fl, w, pr, ln, c = m.groups()
        if c == '%': out.append(('lit', '%')); continue
        if w == '*': args.pop(0)
        p = args.pop(0) if pr == '*' else None if pr is None else D.iconst(int(pr), 'i32')
        out.append(('conv', c, p, args.pop(0)))
    if pos < len(fmt): out.append(('lit', fmt[pos:]))
    return out

class IO:
    """recorder installed in the executor"""
    def __init__(self): self.ev = []; self.k = 0
    def fresh(self): self.k += 1; return D.var('io%d' % self.k, 'i32')
    def call(self, ex, st, name, A):
        if name == 'fprintf': self.ev.append((st.pc, A[0], items(ex, st, cstr(ex, st, A[1]), A[2:])))
        elif name == 'printf': self.ev.append((st.pc, None, items(ex, st, cstr(ex, st, A[0]), A[1:])))
        elif name == 'fputs': self.ev.append((st.pc, A[1], [('lit', re.sub('\x1b\\[[0-9;]*m', '', cstr(ex, st, A[0])))]))
        elif name in ('puts', 'putchar'): self.ev.append((st.pc, None, [('lit', '?\n')]))
        elif name in ('fputc', 'putc', '_IO_putc'):
            if not D.isc(A[0]): raise symex.Unsupported('fputc')
            self.ev.append((st.pc, A[1], [('lit', chr(A[0].val & 255))]))
        elif name == 'fwrite':
            n = A[1].val*A[2].val; o, f = A[0].alts[0][1:]
            bs = [ex.load(st, symex.ptr(o, f+i), ('i', 8)) for i in range(n)]
            if not all(D.isc(b) for b in bs): raise symex.Unsupported('fwrite')
            self.ev.append((st.pc, A[3], [('lit', ''.join(chr(b.val) for b in bs))]))
        elif name == 'fflush': pass
        elif name in ('snprintf', 'sprintf'):
            o = A[0].alts[0][1]
            if o is not None:
                for i in range(o.size): ex.raw_store(st, o, i, 1, D.undef('text%d' % i, 'i8'))
        else: return None
        return self.fresh()
ir_cache = {}
def encode(mod, fn, k, tagnull):
    ex = symex.Exec(mod, loop_bound=20); st = symex.State(); ex.io = IO()
    _, ty, rows, _ = F[k]; n = sum(map(len, rows))
    o = symex.Obj('a', 4*n, 16, 'param'); e = [D.var('a[%d]' % i, ty) for i in range(n)]
    for i in range(n): ex.raw_store(st, o, 4*i, 4, e[i])
    stream = symex.Obj('ostream', 8, 8, 'param'); args = [symex.ptr(o)]; tag = None
    if k == 'aabb':
        tag = symex.Obj('tag', 16, 1, 'param'); args.append(symex.NULL if tagnull else symex.ptr(tag))
    args.append(symex.ptr(stream))
    s2, r = ex.call('w_' + fn, st, args)
    if s2 is None: raise symex.Unsupported('does not return')
    return ex, e, stream, tag, s2, o

def claims(ex, k, e, stream, tag, tagnull, st, prec, thr):
    """-> list of (label, node that must be true for all inputs)"""
    _, ty, rows, head = F[k]; order = [i for r in rows for i in r]; N = len(order); C = len(rows[0])
    T = D.TRUE; cnt = D.iconst(0, 'i32'); hc = D.iconst(0, 'i32'); sp = T; nl = D.FALSE; body = D.FALSE
    out = {}
    def need(label, g, c):
        q = D.or_(D.not_(g), c); out[label] = D.and_(out.get(label, T), q)
    def is_(x, v): return D.icmp('eq', x, D.iconst(v, 'i32'))
    def same(a, b):
        if a is b: return T
        if isinstance(a, symex.Ptr) or a.ty != b.ty: return D.FALSE
        if a.ty[0] == 'f': return D.or_(D.icmp('eq', D.tobits(a), D.tobits(b)), D.fcmp('oeq', a, b))
        return D.icmp('eq', a, b)
    i32 = lambda x: x if x.ty == 'i32' else D.trunc(x, 'i32')
    tags = D.FALSE
    for g, s, its in ex.io.ev:
        ok = s is not None and all(o is stream and f == 0 for c, o, f in s.alts if not (D.isc(c) and not c.val))
        need('everything goes to the requested stream', g, T if ok else D.FALSE)
        for it in its:
            if it[0] == 'lit':
                t = it[1]; sp = D.ite(g, T if t[-1] in ' \t\n(|[,' else D.FALSE, sp)
                if '\n' in t: nl = D.or_(nl, D.and_(g, body)); body = D.or_(body, g)
                continue
            _, c, p, v = it
            if c == 's':
                if not isinstance(v, symex.Ptr): raise symex.Unsupported('%s')
                if any(o is not None and o is not tag and o.kind != 'global' for _, o, _ in v.alts): raise symex.Unsupported('%s of a buffer')
                if k != 'aabb': raise symex.Unsupported('%s')
                want = T if (tagnull and cstr(ex, st, v) == 'float') or (not tagnull and all(o is tag and f == 0 for cc, o, f in v.alts if not (D.isc(cc) and not cc.val))) else D.FALSE
                need('the tag is printed', g, want); tags = D.or_(tags, g); sp = D.ite(g, D.FALSE, sp); continue
            if isinstance(v, symex.Ptr): raise symex.Unsupported('pointer printed')
            hb = D.and_(g, D.not_(body)); bb = D.and_(g, body)
            # header numbers
            if not (D.isc(hb) and not hb.val):
                for j, h in enumerate(head): need('header names the dimensions', D.and_(hb, is_(hc, j)), T if c in 'diu' and D.isc(v) and v.val == h else D.FALSE)
                need('header names the dimensions', D.and_(hb, D.not_(D.icmp('ult', hc, D.iconst(len(head), 'i32')))), D.FALSE)
                hc = D.ite(hb, D.ibin('add', hc, D.iconst(1, 'i32')), hc)
            if not (D.isc(bb) and not bb.val):
                for q, i in enumerate(order):
                    at = D.and_(bb, is_(cnt, q)); x = e[i]
                    if ty == 'i32':
                        need('element %d printed at position %d' % (i, q), at, same(v, x) if c in 'di' else D.FALSE)
                    else:
                        need('element %d printed at position %d' % (i, q), at, same(v, D.mk('fpext', 'f64', (x,))) if c in 'fFgGeE' and v.ty == 'f64' else D.FALSE)
                        small = D.fcmp('olt', x, D.fconst(thr))
                        isf = D.and_(T if c in 'fF' else D.FALSE, is_(i32(p), prec) if p is not None else D.FALSE)
                        need('format of element %d' % i, at, D.ite(small, isf, T if c in 'gG' else D.FALSE))
                    if q: need('rows on lines of their own', at, nl if q % C == 0 else D.not_(nl))
                    if q: need('values are separated', at, sp)
                need('every element once', D.and_(bb, D.icmp('ult', D.iconst(N-1, 'i32'), cnt)), D.FALSE)
                cnt = D.ite(bb, D.ibin('add', cnt, D.iconst(1, 'i32')), cnt); nl = D.ite(bb, D.FALSE, nl)
            sp = D.ite(g, D.FALSE, sp)
    need('every element once', T, is_(cnt, N)); need('header names the dimensions', T, is_(hc, len(head)))
    if k == 'aabb': need('the tag is printed', T, tags)
    return sorted(out.items())

# ---------------------------------------------------------------- the real code
def driver(cfg, defs, pre):
    d = B.tmpdir(); c = '%s/p31_%s_%s.c' % (d, pre, len(defs)); o = c[:-2]
    s = source(pre) + '''
int main(int argc, char **argv) { uint32_t b[16] __attribute__((aligned(32))); char *t = NULL; size_t n = 0; int i; FILE *os = open_memstream(&t, &n);
 for (i = 2; i < argc && i < 18; i++) b[i-2] = (uint32_t)strtoul(argv[i], NULL, 16);
'''
    for fn, k, p in protos():
        if (p == 'glmc_') != (pre == 'glmc_'): continue
        if k == 'aabb': s += ' if (!strcmp(argv[1], "%s")) w_%s((float *)b, "a tag", os); if (!strcmp(argv[1], "%s/null")) w_%s((float *)b, NULL, os);\n' % (fn, fn, fn, fn)
        else: s += ' if (!strcmp(argv[1], "%s")) w_%s((void *)b, os);\n' % (fn, fn)
    s += ' fclose(os); fwrite(t, 1, n, stdout); return 0; }\n'
    open(c, 'w').write(s)
    srcs = [x for x in B.call_sources() if x.endswith('/io.c')] if pre == 'glmc_' else []
    r = B.run(['gcc', '-w', '-O1', '-fno-strict-aliasing', '-I' + B.INC] + ['-D' + x for x in defs] + [c] + srcs + ['-lm', '-o', o])
    if r.returncode: raise B.BuildError(r.stderr[:1500])
    return o
def show(exe, fn, bs):
    r = subprocess.run([exe, fn] + ['%08x' % b for b in bs], capture_output=True, timeout=20)
    return None if r.returncode else r.stdout.decode('latin1')
def expect(k, bs, prec, thr):
    _, ty, rows, head = F[k]; out = []
    for r in rows:
        l = []
        for i in r:
            if ty == 'i32': l.append('%d' % struct.unpack('<i', struct.pack('<I', bs[i]))[0]); continue
            v = struct.unpack('<f', struct.pack('<I', bs[i]))[0]
            l.append(('%.*f' % (prec, v)) if v < thr else '%g' % v)
        out.append(l)
    return out
def wrong(text, k, bs, prec, thr, tagnull):
    """None or what is wrong with the printed text"""
    if text is None: return 'crashed'
    text = re.sub('\x1b\\[[0-9;]*m', '', text); exp = expect(k, bs, prec, thr); head, _, body = text.partition('\n')
    got = [re.sub(r'[()|]', ' ', l).split() for l in body.split('\n')]; got = [l for l in got if l]
    nan = lambda a: 'nan' if 'nan' in a else a
    if [[nan(x) for x in l] for l in got] != [[nan(x) for x in l] for l in exp]: return 'printed %r, expected %r' % (got, exp)
    h = F[k][3]
    if k == 'aabb':
        if ('(float)' if tagnull else '(a tag)') not in head: return 'header %r' % head
    elif re.findall(r'\d+', head) != [str(x) for x in h]: return 'header %r' % head
    return None

def run(chk):
    z3 = solver.Z3(); st = chk.stats; rng = random.Random(chk.seed)
    SPEC = [0x47c34fff, 0x47c35000, 0x47c35001, 0x42c80000, 0x42c7ffff, 0xc7c35000, 0x7f800000, 0xff800000, 0x7fc00000, 0, 0x80000000, 0x3f800000, 0x42f6e979, 0xc2f6e979, 0x501502f9, 0x7f7fffff]
    for vn, defs, prec, thr in VARIANTS:
        for pre in ('glm_', 'glmc_'):
            if pre == 'glmc_' and defs: continue
            ps = [p for p in protos() if (p[2] == 'glmc_') == (pre == 'glmc_')]
            try:
                cfg = B.Config('p31', [], defs)
                src = source(pre)
                if pre == 'glmc_': src += ''.join('#include "%s"\n' % x for x in B.call_sources() if x.endswith('/io.c'))
                mod = B.compile_ll(cfg, src, 'c31' + pre); exe = driver(cfg, defs, pre)
            except B.BuildError as e:
                chk.incon.append((vn, 'does not build: %s' % e)); continue
            for fn, k, p in ps:
                for tagnull in ((False, True) if k == 'aabb' else (False,)):
                    unit = fn + ('(NULL tag)' if tagnull else '')
                    nm = fn + ('/null' if tagnull else ''); n = sum(map(len, F[k][2]))
                    try:
                        ex, e, stream, tag, s2, o = encode(mod, fn, k, tagnull)
                        cl = claims(ex, k, e, stream, tag, tagnull, s2, prec, thr)
                    except symex.Unsupported as x:
                        chk.incon.append((unit, 'not encodable: %s' % x)); continue
                    except Exception as x:
                        chk.incon.append((unit, 'error: %r' % x)); chk.info.setdefault('errors', []).append(traceback.format_exc()[-800:]); continue
                    st['encodings'] += 1; st['instructions'] += ex.steps; st['forks'] += ex.forks; chk.perfn |= set(ex.funcs)
                    chk.perfn.discard('w_' + fn); nviol = 0
                    for label, node in cl:
                        st['claims'] += 1; st['paths'] += 1
                        L = BT.Low(); g = L.b(node)
                        txt = '\n'.join(L.lines) + '\n(assert (not %s))' % g; ins = sorted(L.inputs.values())
                        t0 = time.time(); q0 = dict(z3.counts)
                        v, _ = z3.check(txt, 60, None, None)
                        st['queries'] += 1; st['solver_ms'] += int(1000*(time.time()-t0)); st[v] += 1
                        if v == 'unsat': st['proven'] += 1; continue
                        m = {}
                        if v == 'sat':
                            P = BT.BProver.__new__(BT.BProver); P.z3 = z3; mm = P.model(txt, ins)
                            m = {a: mm[i] for (a, _), i in L.inputs.items() if i in mm}
                        found = None
                        cands = [[m.get('a[%d]' % i, 0x3f800000 + i*0x10000) for i in range(n)]] if m or v == 'sat' else []
                        cands += [[struct.unpack('<I', struct.pack('<f', 1.5+i))[0] if F[k][1] == 'f32' else 10+i for i in range(n)]] + [[rng.choice(SPEC) for _ in range(n)] for _ in range(20)]
                        for bs in cands:
                            st['replays'] += 1
                            w = wrong(show(exe, nm, bs), k, bs, prec, thr, tagnull)
                            if w: found = (bs, w); break
                        if found and v == 'sat':
                            nviol += 1
                            if nviol <= 3: chk.viol.append(dict(unit=unit, config=vn, claim=label, detail=found[1], inputs={'a[%d]' % i: '%08x' % b for i, b in enumerate(found[0])}, how='compiled with gcc and printed to a memory stream'))
                        else: chk.incon.append((unit + ':' + label, 'solver: %s, not reproduced on the code' % v))
                    # the encoding's reading of the printed text against the real output
                    for _ in range(3):
                        bs = [rng.choice(SPEC) if rng.random() < .6 else rng.getrandbits(32) for _ in range(n)]
                        w = wrong(show(exe, nm, bs), k, bs, prec, thr, tagnull); st['traces'] += 1
                        if w and not nviol: chk.incon.append((unit, 'the real output disagrees with the encoding: ' + w))
                    if len(chk.samples) < 12 and cl: chk.samples.append(dict(unit=unit, config=vn, claims=[l for l, _ in cl][:8], events=len(ex.io.ev)))
    chk.info['configurations'] = [v[0] for v in VARIANTS]
