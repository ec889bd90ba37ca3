"""
A controlled scheduler for real threads running the real code.

Only one thread runs at a time. A thread may be switched at every line (or
bytecode instruction) of the code under test (or some files of it) that can touch something shared,
and at every blocking operation on a lock. explore() executes every schedule
with at most `bound` preemptions (switches away from a thread that could have
gone on); choosing the next thread when one blocks or ends is free.

install() replaces the locks of `threading`, from which its other primitives
are made, and imports a fresh copy of the code under test that uses them.
"""
import _thread
import dis
import gc
import importlib
import os
import sys
import threading
import time
from mc.base import HarnessError, Viol

_raw_lock = _thread.allocate_lock
_raw_rlock = _thread.RLock
get_ident = _thread.get_ident
_controlled = {}        # thread identifier -> (Sched, T)
STALL = 10.0            # a wait this long that only ends by its timeout counts as being stuck


class Abort(BaseException):
    """ Ends the threads of an execution that has failed. """


def outside(lock, blocking, timeout):
    """ Acquire a lock in a thread that is not controlled. There, nothing waits long, unless for a lock that was left held. """
    if not blocking or timeout >= 0:
        return lock.acquire(blocking, timeout)
    if not lock.acquire(True, 2 * STALL):
        raise Viol('a lock is never released')
    return True


class Lock:
    """ Like threading.Lock; blocks by asking the scheduler in controlled threads. """

    def __init__(self):
        self._l = _raw_lock()

    def acquire(self, blocking=True, timeout=-1):
        c = _controlled.get(get_ident())
        if c is None:
            return outside(self._l, blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or not c[0].block(c[1], lambda: not self._l.locked(), timeout):
                return False
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _raw_lock()


class RLock:
    def __init__(self):
        self._l, self._owner, self._count = _raw_lock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        c = _controlled.get(me)
        if c is None:
            if not outside(self._l, blocking, timeout):
                return False
        else:
            while not self._l.acquire(False):
                if not blocking or not c[0].block(c[1], lambda: not self._l.locked(), timeout):
                    return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        s, self._count, self._owner = self._count, 0, None
        self._l.release()
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count = s

    def _at_fork_reinit(self):
        self.__init__()


_virtual = {}       # real thread identifier -> the one the scheduler gave


def virtual_ident():
    i = get_ident()
    return _virtual.get(i, i)


class Thread(threading.Thread):
    """ A thread with a chosen identifier, as the system may reuse those of finished threads. """

    def __init__(self, target, ident, args=()):
        super().__init__(target=target, args=args, daemon=True)
        self._vid = ident

    def _set_ident(self):
        _virtual[get_ident()] = self._vid
        self._ident = self._vid


_installed = False
ROOT = None


def install():
    """ Replace the locks; import a fresh copy of the code under test. """
    global _installed, ROOT
    if not _installed:
        _installed = True
        import ebmlite
        ROOT = os.path.dirname(os.path.realpath(ebmlite.__file__)) + os.sep
        from mc.fresh import purge
        purge()
        threading.Lock = threading._allocate_lock = Lock
        threading.RLock = RLock
        threading.get_ident = virtual_ident
        for m in ('core', 'util', 'threaded_file', 'encoding', 'decoding', 'xml_codecs'):
            importlib.import_module('ebmlite.' + m)


# ------------------------------------------------------------ scheduling points
SHARED = {'STORE_ATTR', 'DELETE_ATTR', 'LOAD_ATTR', 'LOAD_METHOD', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR',
          'CONTAINS_OP', 'CALL', 'CALL_FUNCTION_EX', 'FOR_ITER', 'BINARY_SLICE', 'STORE_SLICE', 'LOAD_SUPER_ATTR', 'BEFORE_WITH', 'SEND', 'CALL_KW',
          'CALL_FUNCTION', 'CALL_METHOD', 'CALL_FUNCTION_KW', 'LOAD_DEREF', 'STORE_DEREF', 'GET_ITER', 'UNPACK_SEQUENCE', 'LIST_EXTEND', 'DICT_UPDATE', 'DICT_MERGE'}
MUTATORS = {'append', 'add', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'discard', 'sort', 'reverse'}
_lines = {}      # (mode, code) -> lines (or offsets) that are scheduling points
_hot = None


def codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            yield from codes(c)


def hot_names():
    """ Names of attributes the code under test assigns outside constructors,
        and of module variables it assigns or changes in functions. """
    global _hot
    if _hot is None:
        _hot = set()
        for name, m in list(sys.modules.items()):
            if (name == 'ebmlite' or name.startswith('ebmlite.')) and getattr(m, '__file__', None):
                with open(m.__file__, 'rb') as f:
                    top = compile(f.read(), m.__file__, 'exec')
                for c in codes(top):
                    for i in dis.get_instructions(c):
                        if i.opname in ('STORE_ATTR', 'DELETE_ATTR') and c.co_name != '__init__' and c is not top:
                            _hot.add(i.argval)
                        if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                            _hot.add(i.argval)
                # module variables that are containers
                for k, v in vars(m).items():
                    if isinstance(v, (dict, list, set, bytearray)) and not k.startswith('__'):
                        _hot.add(k)
    return _hot


def points(code, mode):
    """ The lines ('line', 'hot') or instruction offsets ('op') of a code object before which a thread may be switched. """
    key = mode, code
    res = _lines.get(key)
    if res is None:
        res = set()
        line = code.co_firstlineno
        hot = hot_names() if mode == 'hot' else ()
        for i in dis.get_instructions(code):
            p = getattr(i, 'positions', None)
            if p is not None:
                line = p.lineno or line
            elif i.starts_line:
                line = i.starts_line
            if i.opname not in SHARED and not i.opname.startswith(('STORE_GLOBAL', 'LOAD_GLOBAL') if mode == 'hot' else 'STORE_GLOBAL'):
                continue
            if mode == 'hot':
                if i.argval in hot or i.argval in MUTATORS or i.opname in ('STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_GLOBAL', 'BEFORE_WITH'):
                    res.add(line)
            elif mode == 'line':
                res.add(line)
            else:
                res.add(i.offset)
        _lines[key] = res
    return res


# --------------------------------------------------------------- one execution
class T:
    __slots__ = ('i', 'fn', 'sem', 'pred', 'timeout', 'timedout', 'done', 'thread', 'error', 'result')

    def __init__(self, i, fn):
        self.i, self.fn, self.sem = i, fn, _raw_lock()
        self.sem.acquire()
        self.pred = self.timeout = self.error = self.result = None
        self.timedout = self.done = False


class Sched:
    """ One execution of some functions in threads of their own, with the choices in `prefix` first. """

    def __init__(self, fns, prefix=(), mode='line', files=None, horizon=50000):
        self.ts = [T(i, f) for i, f in enumerate(fns)]
        self.prefix, self.mode, self.horizon = prefix, mode, horizon
        self.root = tuple(ROOT + f for f in files) if files else ROOT
        self.choices = []       # index chosen at every point with more than one enabled thread
        self.options = []       # (number of enabled threads, whether the running thread is among them)
        self.steps = 0
        self.failure = None
        self.dead = False
        self.finished = _raw_lock()
        self.finished.acquire()
        self.where = []

    # -- choosing
    def enabled(self, cur):
        out = []
        if cur is not None and not cur.done and (cur.pred is None or cur.pred()):
            out.append(cur)
        for t in self.ts:
            if t is not cur and not t.done and (t.pred is None or t.pred()):
                out.append(t)
        return out

    def choose(self, cur):
        en = self.enabled(cur)
        if not en:
            timed = [t for t in self.ts if not t.done and t.timeout is not None]
            if timed:
                t = min(timed, key=lambda t: t.timeout)
                if t.timeout >= STALL and self.failure is None:
                    self.failure = 'all threads wait for each other; only a timeout of %s s lets them go on' % t.timeout
                t.timedout = True
                return t
            return None
        if len(en) == 1:
            return en[0]
        k = len(self.choices)
        idx = self.prefix[k] if k < len(self.prefix) else 0
        if idx >= len(en):
            idx = 0
        self.choices.append(idx)
        self.options.append((len(en), en[0] is cur))
        return en[idx]

    # -- called by controlled threads
    def point(self, t):
        if self.dead:
            raise Abort()
        self.steps += 1
        if self.steps > self.horizon:
            self.fail('does not come to an end (%d steps)' % self.steps)
            raise Abort()
        nxt = self.choose(t)
        if nxt is not t:
            nxt.sem.release()
            t.sem.acquire()
            if self.dead:
                raise Abort()

    def block(self, t, pred, timeout=None):
        """ Wait until pred(); False if the timeout passed instead. """
        if self.dead:
            raise Abort()
        t.pred = pred
        t.timeout = timeout if timeout is not None and timeout >= 0 else None
        t.timedout = False
        nxt = self.choose(t)
        if nxt is None:
            self.fail('deadlock: all threads wait for each other')
            raise Abort()
        if nxt is not t:
            nxt.sem.release()
            t.sem.acquire()
        if self.dead:
            raise Abort()
        t.pred = t.timeout = None
        return not t.timedout

    def fail(self, msg):
        if self.failure is None:
            self.failure = msg
        self.kill()

    def kill(self):
        self.dead = True
        for t in self.ts:
            if not t.done:
                try:
                    t.sem.release()
                except RuntimeError:
                    pass

    def body(self, t):
        t.sem.acquire()
        ident = get_ident()
        _controlled[ident] = (self, t)
        mode, root = self.mode, self.root
        try:
            if self.dead:
                raise Abort()

            byline = mode != 'op'
            point, tracers = self.point, {}

            def tracer(code):
                if not code.co_filename.startswith(root):
                    return None
                pts = points(code, mode)
                if not pts:
                    return None

                def line(frame, event, arg):
                    if event == 'line' and frame.f_lineno in pts:
                        point(t)
                    return line

                def opcode(frame, event, arg):
                    if event == 'opcode' and frame.f_lasti in pts:
                        point(t)
                    return opcode
                return line if byline else opcode

            def trace(frame, event, arg):
                code = frame.f_code
                try:
                    fn = tracers[code]
                except KeyError:
                    fn = tracers[code] = tracer(code)
                if fn is not None and not byline:
                    frame.f_trace_opcodes = True
                return fn
            sys.settrace(trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        finally:
            _controlled.pop(ident, None)
        t.done = True
        if self.dead:
            if all(x.done for x in self.ts):
                self.release_finished()
            return
        nxt = self.choose(t)
        if nxt is not None:
            nxt.sem.release()
        elif all(x.done for x in self.ts):
            self.release_finished()
        else:
            self.fail('deadlock: the remaining threads wait for nothing')

    def release_finished(self):
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def run(self):
        for t in self.ts:
            t.thread = Thread(self.body, 1000 + t.i, (t,))
            t.thread.start()
        try:
            self.choose(None).sem.release()
            if not self.finished.acquire(timeout=60):
                raise Viol('an execution hangs outside of the scheduler')
        except BaseException:
            self.kill()
            raise
        for t in self.ts:
            t.thread.join()
        return self


def explore(make, check, bound, mode='line', ctx=None, limit=None, firstlevel=None, files=None):
    """ Execute every schedule with at most `bound` preemptions. make() gives
        fresh functions (and anything else) as (fns, state); check(sched, state)
        raises Viol. `firstlevel` = (i, n) does only every n-th of the branches of
        the first execution, for sharing the work. Returns the number of schedules. """
    was = gc.isenabled()
    gc.disable()
    n = 0
    stack = [((), 0)]
    try:
        one(make, check, (), mode, files)      # fills caches, so that the following executions are alike
        while stack:
            prefix, cost = stack.pop()
            x = one(make, check, prefix, mode, files)
            n += 1
            if n % 200 == 0:
                gc.collect()
            if tuple(x.choices[:len(prefix)]) != prefix and ctx is not None:
                ctx.add('divergences')
            if ctx is not None:
                ctx.add('transitions', x.steps)
                ctx.add('states', x.steps + 1)
            branch = 0
            for i in range(len(prefix), len(x.choices)):
                count, running = x.options[i]
                c = cost + (1 if running else 0)
                if c > bound:
                    continue
                for alt in range(1, count):
                    branch += 1
                    if firstlevel and not prefix and branch % firstlevel[1] != firstlevel[0]:
                        continue
                    stack.append((tuple(x.choices[:i]) + (alt,), c))
            if limit and n >= limit:
                raise HarnessError('more than %d schedules' % limit)
    finally:
        if was:
            gc.enable()
    if ctx is not None:
        ctx.add('schedules', n)
        ctx.add('traces', n)
    return n


def one(make, check, prefix, mode, files=None):
    fns, state = make()
    x = Sched(fns, prefix, mode, files)
    x.run()
    try:
        if x.failure:
            raise Viol(x.failure)
        check(x, state)
    except Viol as e:
        # The same schedule must fail the same way again.
        fns, state = make()
        y = Sched(fns, x.choices, mode, files).run()
        again = 'the same'
        try:
            if y.failure:
                raise Viol(y.failure)
            check(y, state)
            again = 'not reproduced'
        except Viol as e2:
            again = 'reproduced' if str(e2) == str(e) else 'reproduced as: %s' % e2
        raise Viol('%s\nschedule (choices at %d points, all others 0): %r; %s' % (
            e, len(x.choices), {i: c for i, c in enumerate(x.choices) if c}, again), e.key)
    return x
