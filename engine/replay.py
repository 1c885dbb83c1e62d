"""Runs the real compiled code: one shared library per native configuration, called through ctypes in a child process."""
import re, select, os, subprocess, ctypes, sys, json, pickle
import numpy as np
from . import build as B

def compile_so(cfgname, names, struct=False, extra='', opt='-O2', tag='r', san=None):
    cfg = B.CFG[cfgname]; d = B.tmpdir()
    c = '%s/%s_%s.c' % (d, tag, cfgname); o = c[:-2] + '.so'
    open(c, 'w').write(B.wrap_source(names, struct, extra))
    g = cfg.gcc()
    if opt != '-O2': g = [opt if x == '-O2' else x for x in g]
    r = B.run(['gcc'] + g + [c, '-o', o, '-lm'])
    if r.returncode and struct and any(h in r.stderr for h in B.EXTRA):
        open(c, 'w').write(B.wrap_source([n for n in names if B.API[n]['header'] not in B.EXTRA], struct, extra))
        r = B.run(['gcc'] + g + ['-DVERIF_NO_EXTRA', c, '-o', o, '-lm'])
    if not r.returncode:
        # functions this configuration does not have leave undefined symbols behind: do without their wrappers
        u = B.run(['nm', '-u', o]).stdout
        bad = set(re.findall(r'U (glm\w+)$', u, re.M))
        if bad: return compile_so(cfgname, [n for n in names if n not in bad and not (n in B.SHIMS and B.SHIMS[n][1] and any(re.search(r'\b%s\b' % b, B.SHIMS[n][1]) for b in bad))], struct, extra, opt, tag, san)
    if r.returncode: raise B.BuildError(r.stderr[:3000])
    return o

def compile_call_so(cfgname):
    cfg = B.CFG[cfgname]; d = B.tmpdir(); o = '%s/call_%s.so' % (d, cfgname)
    r = B.run(['gcc'] + cfg.gcc() + ['-I' + B.REPO + '/src'] + B.call_sources() + ['-o', o, '-lm'])
    if r.returncode: raise B.BuildError(r.stderr[:3000])
    return o

CT = {'f32': ctypes.c_float, 'i32': ctypes.c_int, 'i1': ctypes.c_bool, 'i64': ctypes.c_long, 'size': ctypes.c_size_t, 'f64': ctypes.c_double,
      'i8': ctypes.c_int8, 'i16': ctypes.c_int16}

def aligned(n, dt=np.float32, al=64):
    raw = np.zeros(n*4 + al, np.uint8)
    off = (-raw.ctypes.data) % al
    a = raw[off:off+n*4].view(dt)
    return a

class Lib:
    """in-process caller (use inside Child)"""
    def __init__(self, path):
        self.lib = ctypes.CDLL(path)
    def call(self, name, ins, consts=None, alias=None, sizes=None, prefix='w_', fname=None):
        f = B.API[name]; alias = alias or {}; consts = consts or {}
        fn = getattr(self.lib, fname or (prefix + name))
        params = list(f['params'])
        if f['ret']['kind'] == 'struct' :
            params = params + [dict(name='ret__', kind='obj', elem=f['ret']['elem'], n=f['ret']['n'], ty=f['ret']['ty'], ptr=0)]
        args = []; bufs = {}; at = []
        for p in params:
            nm = p['name']
            if p['kind'] == 'scalar':
                v = consts[nm] if nm in consts else ins[nm][0]
                t = CT[p['ty']]; at.append(t)
                args.append(t(float(v)) if p['ty'][0] == 'f' else t(int(v))); continue
            at.append(ctypes.c_void_p)
            if nm in alias: args.append(ctypes.c_void_p(bufs[alias[nm]].ctypes.data)); bufs[nm] = bufs[alias[nm]]; continue
            n = (sizes or {}).get(nm, p['n'])
            if n == -1:
                k = consts.get('len', 3)
                arr = (ctypes.c_void_p * k)()
                for j in range(k):
                    b = aligned(16); b[:] = ins['%s%d' % (nm, j)]; bufs['%s%d' % (nm, j)] = b
                    arr[j] = b.ctypes.data
                bufs['__arr'] = arr
                args.append(ctypes.cast(arr, ctypes.c_void_p)); continue
            b = aligned(n, np.float32 if p['ty'] == 'f32' else np.int32)
            if nm in ins: b[:] = np.asarray(ins[nm], b.dtype)[:n]
            elif b.dtype == np.float32: b[:] = np.nan
            bufs[nm] = b; args.append(ctypes.c_void_p(b.ctypes.data))
        fn.argtypes = at
        r = f['ret']
        fn.restype = None if r['kind'] in ('void', 'struct') else CT.get(r.get('ty', 'f32'), ctypes.c_float)
        rv = fn(*args)
        out = {k: np.array(v) for k, v in bufs.items() if k != '__arr'}
        return rv, out

CHILD = r'''
import sys, pickle, struct
sys.path.insert(0, %r)
from engine import replay
libs = {}
inp = sys.stdin.buffer; outp = sys.stdout.buffer
while True:
    h = inp.read(4)
    if len(h) < 4: break
    n = struct.unpack('<I', h)[0]
    m = pickle.loads(inp.read(n))
    try:
        p = m.pop('path')
        if p not in libs: libs[p] = replay.Lib(p)
        r = ('ok', libs[p].call(**m))
    except Exception as e:
        r = ('err', repr(e))
    b = pickle.dumps(r)
    outp.write(struct.pack('<I', len(b)) + b); outp.flush()
'''

class Child:
    """child process that makes the calls, so that a crash of the code under test is only an observation"""
    def __init__(self): self.p = None
    def start(self):
        self.p = subprocess.Popen([sys.executable, '-c', CHILD % B.VERIF], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    def call(self, path, name, ins, **k):
        import struct
        if self.p is None or self.p.poll() is not None: self.start()
        m = dict(path=path, name=name, ins=ins, **k)
        b = pickle.dumps(m)
        try:
            self.p.stdin.write(struct.pack('<I', len(b)) + b); self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], 20)[0]:
                self.kill(); return ('crash', 'does not return')
            h = self.p.stdout.read(4)
            if len(h) < 4: raise EOFError
            st, r = pickle.loads(self.p.stdout.read(struct.unpack('<I', h)[0]))
        except (EOFError, BrokenPipeError):
            rc = self.p.wait(); self.p = None
            return ('crash', rc)
        return (st, r)
    def kill(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
            self.p = None
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill()
            self.p = None
