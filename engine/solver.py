"""A z3 process driven over a pipe."""
import subprocess, select, os, time, re
from fractions import Fraction

class Z3:
    def __init__(self, exe='z3-new', mem=3000):
        self.exe = exe; self.p = None; self.mem = mem
        self.queries = 0; self.time = 0.0; self.counts = {'sat': 0, 'unsat': 0, 'unknown': 0}
    def start(self):
        self.p = subprocess.Popen([self.exe, '-in', '-smt2', '-memory:%d' % self.mem], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b''
        self.send('(set-option :pp.decimal true)(set-option :pp.decimal_precision 12)(set-option :print-success false)\n')
    def send(self, t):
        self.p.stdin.write(t.encode()); self.p.stdin.flush()
    def readline(self, deadline):
        while b'\n' not in self.buf:
            w = deadline - time.time()
            if w <= 0: return None
            r, _, _ = select.select([self.p.stdout], [], [], w)
            if not r: return None
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d: return None
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()
    def kill(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
            self.p = None
    def check(self, text, timeout=10.0, tactic='qfnra-nlsat', values=None, logic=None):
        """-> (verdict, model dict name->float/Fraction)"""
        if self.p is None or self.p.poll() is not None: self.start()
        t0 = time.time(); self.queries += 1
        ms = int(timeout*1000)
        cs = '(check-sat-using (try-for %s %d))' % (tactic, ms) if tactic else '(set-option :timeout %d)(check-sat)' % ms
        try: self.send('(push)\n' + text + '\n' + cs + '\n(echo "#v")\n')
        except BrokenPipeError: self.kill(); return 'unknown', {}
        verdict = 'unknown'; dead = t0 + timeout + 3
        while True:
            l = self.readline(dead)
            if l is None: self.kill(); break
            if l.strip() == '#v': break
            if l.strip() in ('sat', 'unsat', 'unknown'): verdict = l.strip()
            elif l.startswith('(error') and 'try-for' not in l and 'canceled' not in l:
                self.lasterr = l; verdict = 'unknown'
        model = {}
        if verdict == 'sat' and values and self.p:
            self.send('(get-value (%s))\n(echo "#m")\n' % ' '.join(values))
            txt = ''
            while True:
                l = self.readline(time.time()+5)
                if l is None: self.kill(); break
                if l.strip() == '#m': break
                txt += l + '\n'
            model = parse_model(txt)
        if self.p: self.send('(pop)\n')
        self.time += time.time()-t0; self.counts[verdict] += 1
        return verdict, model

def parse_model(t):
    toks = re.findall(r'[()]|[^\s()]+', t)
    pos = [0]
    def rd():
        x = toks[pos[0]]; pos[0] += 1
        if x != '(': return x
        l = []
        while toks[pos[0]] != ')': l.append(rd())
        pos[0] += 1
        return l
    out = {}
    try:
        for e in rd():
            if len(e) == 2: out[e[0]] = num(e[1])
    except Exception: pass
    return out
def num(e):
    if isinstance(e, str):
        if e in ('true', 'false'): return e == 'true'
        return Fraction(e.rstrip('?'))
    if e[0] == '-': return -num(e[1])
    if e[0] == '/': return num(e[1])/num(e[2])
    raise ValueError(e)
