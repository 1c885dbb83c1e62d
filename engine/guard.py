"""Time and memory limits inside worker processes: a step that takes too long is given up (and counted as undecided), never waited for."""
import signal, time, resource, contextlib, multiprocessing as mp

class Timeout(BaseException): pass
_ends = []
def _fire(sig, frame):
    if _ends and time.time() >= min(_ends) - .01: raise Timeout()
def _arm():
    if _ends: signal.setitimer(signal.ITIMER_REAL, max(.01, min(_ends) - time.time()), 1.0)
    else: signal.setitimer(signal.ITIMER_REAL, 0)
@contextlib.contextmanager
def within(seconds):
    """raises Timeout in the enclosed block after so many seconds; blocks may be nested"""
    signal.signal(signal.SIGALRM, _fire)
    e = time.time() + max(.1, seconds); _ends.append(e); _arm()
    try: yield
    finally: _ends.remove(e); _arm()
def memory(gb=5):
    try: resource.setrlimit(resource.RLIMIT_AS, (int(gb*2**30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError): pass
def drain(pool, it, n, chk, collect):
    """results as they come; stops when the check's time is up even if a worker hangs or died"""
    end = chk.t0 + chk.budget + 60
    for _ in range(n):
        try: r = it.next(timeout=max(1, end - time.time()))
        except StopIteration: break
        except mp.TimeoutError: chk.incon.append(('workers', 'no answer within the time budget')); break
        collect(chk, r)
    pool.terminate()
