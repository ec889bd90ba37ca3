""" Running something in a forked child, optionally with freshly imported copies of the code under test. """
import os
import pickle
import signal
import sys
from mc.base import HarnessError, Viol


def purge():
    """ Forget the imported modules of the code under test. """
    for name in [m for m in sys.modules if m == 'ebmlite' or m.startswith('ebmlite.')]:
        del sys.modules[name]


def child(fn, *args, limit=60):
    """ fn(*args) in a forked child; its result, or the exception raised (Viol as such). """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                res = ('ok', fn(*args))
            except Viol as e:
                res = ('viol', str(e), e.key)
            except BaseException as e:
                import traceback
                res = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)))
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Viol('the process ended (or hung for %d s) without a result' % limit)
    res = pickle.loads(data)
    if res[0] == 'viol':
        raise Viol(res[1], res[2])
    if res[0] == 'exc':
        raise Viol('unexpected ' + res[1])
    return res[1]
