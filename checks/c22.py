""" C22: a thread-aware file behaves like a read-only file over its whole life. """
import io
import itertools
import os
import pathlib
from mc.base import Viol, require, scratch
from mc import sched
from mc.fmodel import View, perform, DATA

sched.install()
from ebmlite import threaded_file      # noqa: E402

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'model checking: all histories of operations of up to three threads that come and go (reusing identifiers), and all ways of opening, against a model file per thread'
RULE = ('States are histories of (thread, operation) steps on a thread-aware file; threads are real, end and are succeeded by new ones with the same identifier. Every '
        'history up to the depth is executed, each result compared with a model of a read-only file per thread; the file on disk must stay as it was. '
        'Every open mode is tried in every form: those that could change a file must be refused and change nothing.')
BOUNDS = dict(quick='histories of 4 steps of 2 threads with 9 operations, of 3 steps of 3 threads with 13, of 2 steps with all 40, of 3 steps with those that look at the file, each from 10 kinds of file; 160 open modes; 6 ways to give a descriptor or opener',
              thorough='histories of 5 steps of 2 threads with 8 operations, of 4 steps of 3 threads with 10, of 3 steps with all 40 or those that look at the file, each from 10 kinds of file; 160 open modes; 6 ways to give a descriptor or opener')
ASSUMPTIONS = ['operations of different threads do not overlap here (C21 covers that)']

KINDS = ['name', 'r', 'kw', 'path', 'buffered', 'raw', 'text', 'bytes', 'opener', 'named']
ALL = list('rRalisemStnLcxwqNkWTVzfj0-obBFgGICEyAMYH')
MID = list('rscxwzRtqlWiS')
LOW = list('rscxwzRt')
MODES = sorted({''.join(p) for base in ('r', 'w', 'a', 'x', 'r+', 'w+', 'a+', 'x+') for extra in ('', 'b', 't') for p in itertools.permutations(base + extra)} |
               {'U', 'rU', '+', 'b', '', 'wx', 'ra', 'rw', '++', 'W', 'rb\0', 'wbx'})


class Worker:
    """ A thread that does one thing at a time. """

    def __init__(self, ident):
        self.go, self.done = sched._raw_lock(), sched._raw_lock()
        self.go.acquire()
        self.done.acquire()
        self.job = self.res = None
        self.thread = sched.Thread(self.loop, ident)
        self.thread.start()

    def loop(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            self.res = perform(*self.job)
            self.done.release()

    def do(self, f, op):
        self.job = (f, op)
        self.go.release()
        if not self.done.acquire(timeout=30):
            raise Viol('%r does not come back' % (op,))
        return self.res

    def end(self):
        self.job = None
        self.go.release()
        self.thread.join()


_path = None


def path():
    global _path
    if _path is None or not os.path.exists(_path):
        _path = os.path.join(scratch(), 'life-%d' % os.getpid())
        with open(_path, 'wb') as f:
            f.write(DATA)
    return _path


def shards(tier):
    return [('h', i) for i in range(64)] + [('m', i) for i in range(4)] + [('f', i) for i in range(4)]


def histories(tier):
    deep = tier == 'thorough'
    two = [(t, o) for t in 'MA' for o in (LOW if deep else LOW[:7] + ['t', 'q'])] + [('A', 'END')]
    three = [(t, o) for t in 'MAB' for o in (LOW + ['q', 'W'] if deep else MID)] + [('A', 'END')]
    wide = [(t, o) for t in 'MA' for o in ALL] + [('A', 'END')]
    look = [(t, o) for t in 'MA' for o in 'rcqHYyMz'] + [('A', 'END')]
    for n, letters, kinds in ((3, look, KINDS[:4] if not deep else KINDS), (5 if deep else 4, two, KINDS[:1]), (4 if deep else 3, two, KINDS[4:5]), (4 if deep else 3, three, KINDS[:1]), (3, two, KINDS), (3 if deep else 2, wide, KINDS)):
        for h in itertools.product(letters, repeat=n):
            if h[-1][1] in ('END', 'c', 'x', 'z') and h[-2][1] in ('END', 'c', 'x', 'z') and n > 3:
                continue        # nothing is seen any more
            for k in kinds:
                yield ('h', k, h)


def cases(shard, tier):
    if shard[0] == 'h':
        yield from itertools.islice(histories(tier), shard[1], None, 64)
    elif shard[0] == 'f':
        for ops in itertools.product(LOW + list('akbgD'), repeat=2 if tier == 'quick' else 3):
            for form in ('fd', 'fdpos', 'fdkw', 'fdclose', 'opener', 'openerpos'):
                yield ('f', shard[1], form, ops)
    else:
        for i, (m, form, exists) in enumerate(itertools.product(MODES, ('pos', 'kw', 'wrap'), (True, False))):
            if i % 4 == shard[1]:
                yield ('m', m, form, exists)


def evaluate(case, ctx):
    if case[0] == 'm':
        return mode_case(case, ctx)
    if case[0] == 'f':
        return form_case(case, ctx)
    _, kind, hist = case
    p = path()
    orig = None
    new = 0
    if kind == 'name':
        f = threaded_file.ThreadAwareFile(p)
    elif kind == 'r':
        f = threaded_file.ThreadAwareFile(p, 'r')
    elif kind == 'kw':
        f = threaded_file.ThreadAwareFile(p, mode='rb', timeout=5.0)
    elif kind == 'bytes':
        f = threaded_file.ThreadAwareFile(os.fsencode(p), 'rb', True, None)
    elif kind == 'named':
        f = threaded_file.ThreadAwareFile(file=p, mode='rb', closefd=True)
    elif kind == 'opener':
        f = threaded_file.ThreadAwareFile(p, 'rb', opener=os.open, closefd=True)
    elif kind == 'path':
        f = threaded_file.ThreadAwareFile(pathlib.Path(p), 'rb')
    else:
        orig = open(p, 'r' if kind == 'text' else 'rb', buffering=0 if kind == 'raw' else -1)
        orig.read(new := 3)
        f = threaded_file.ThreadAwareFile.makeThreadAware(orig)
        require(threaded_file.ThreadAwareFile.makeThreadAware(f) is f, 'a thread-aware file is wrapped again')
        require(f.fileno() == orig.fileno(), 'the wrapped file is not the one used')
    wp = pathlib.Path(p) if kind == 'path' else os.fsencode(p) if kind == 'bytes' else p
    views = {'M': View(wp, 'open', new), 'A': View(wp), 'B': View(wp)}
    workers = {}
    text = kind == 'text'
    i = -1
    try:
        for i, (t, op) in enumerate(hist):
            if op == 'END':
                if t in workers:
                    workers.pop(t).end()
                views[t] = View(wp)
                continue
            if t == 'M':
                res = perform(f, op)
            else:
                if t not in workers:
                    workers[t] = Worker(2000 + ord(t))
                res = workers[t].do(f, op)
            if text and t == 'M':
                # the main thread's own file is a text file: its results are text, and some operations are not offered
                if op in 'aiAMembBFgGCEI' or op == 'k' and res[0] == 'exc':
                    views[t] = None
                elif views[t] is not None and res[0] == 'ok' and isinstance(res[1], str) and op not in 'NWTV':
                    res = ('ok', res[1].encode())
                elif op == 'L' and res[0] == 'ok':
                    res = ('ok', [x.encode() if isinstance(x, str) else x for x in res[1]])
            if views[t] is None:
                break
            v = views[t]
            if op == 'n' and kind in ('buffered', 'text') and t == 'M' and v.state != 'closed':
                res2 = res
                v.step(op, res2, 'step %d: %s: ' % (i, t))
                if text:
                    break       # tell() is disabled by next()
                continue
            v.step(op, res, 'step %d: %s: ' % (i, t))
            if op == 'z':
                for w in views.values():
                    if w.state == 'open':
                        w.state = 'closed'
                    elif w.state == 'unsure':
                        w.state = 'unsure'
            ctx.add('transitions')
    except Viol as e:
        raise Viol('%s file, history %s: %s' % (kind, ' '.join(t + '.' + o for t, o in hist[:i + 1]), e))
    finally:
        for w in workers.values():
            w.end()
        f.closeAll()
        if orig is not None:
            orig.close()
    with open(p, 'rb', buffering=0) as fp:
        require(fp.read() == DATA, 'the file was changed by %r', hist)
    ctx.add('states', len(hist) + 1)
    ctx.add('traces')
    ctx.seen('ends', repr([(v.state, v.pos) for v in views.values() if v]))


def form_case(case, ctx):
    """ One thread; the file given as a descriptor that may be kept open, or opened by a function. """
    _, mi, form, ops = case
    p = path()
    m = ('r', 'rb', 'br', 'r')[mi]
    fd, calls = None, []

    def opener(name, flags):
        calls.append((name, flags))
        return os.open(p, flags)
    if form[:2] == 'fd':
        fd = os.open(p, os.O_RDONLY)
    f = None
    try:
        if form == 'fd':
            f = threaded_file.ThreadAwareFile(fd, m)
        elif form == 'fdpos':
            f = threaded_file.ThreadAwareFile(fd, m, False)
        elif form == 'fdkw':
            f = threaded_file.ThreadAwareFile(fd, mode=m, closefd=False) if mi % 2 else threaded_file.ThreadAwareFile(fd, closefd=False)
        elif form == 'fdclose':
            f = threaded_file.ThreadAwareFile(fd, m, closefd=True)
        elif form == 'opener':
            f = threaded_file.ThreadAwareFile('elsewhere', m, opener=opener)
        else:
            f = threaded_file.ThreadAwareFile('elsewhere', m, True, opener, timeout=3)
        keep = form in ('fdpos', 'fdkw')
        v = View('elsewhere' if fd is None else fd, 'open')
        if fd is None:
            require(len(calls) == 1 and calls[0][0] == 'elsewhere' and not calls[0][1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC), 'opened by %r', calls)
        for i, op in enumerate(ops):
            if op == 'D':
                require(os.path.sameopenfile(f.fileno(), fd) if fd is not None else os.path.samestat(os.fstat(f.fileno()), os.stat(p)), 'fileno() is another file')
                continue
            v.step(op, perform(f, op), '%s, mode %r, %s: ' % (form, m, ' '.join(ops[:i + 1])))
            ctx.add('transitions')
            if v.state == 'closed':
                break
        if v.state != 'closed':
            v.step('c', perform(f, 'c'), '%s, mode %r, %s: ' % (form, m, ' '.join(ops)))
        if fd is not None:
            try:
                os.fstat(fd)
                isopen = True
            except OSError:
                isopen = False
            require(isopen == keep, '%s: the descriptor is %s after closing', form, 'open' if isopen else 'closed')
            if not isopen:
                fd = None
    finally:
        if fd is not None:
            os.close(fd)
    ctx.add('states', len(ops) + 1)
    ctx.add('traces')


def mode_case(case, ctx):
    _, m, form, exists = case
    p = os.path.join(scratch(), 'mode-%d' % os.getpid())
    if os.path.exists(p):
        os.remove(p)
    if exists:
        with open(p, 'wb') as f:
            f.write(DATA)
    writes = any(c in m for c in 'wax+')
    f = orig = None
    try:
        if form == 'pos':
            f = threaded_file.ThreadAwareFile(p, m)
        elif form == 'kw':
            f = threaded_file.ThreadAwareFile(p, mode=m)
        else:
            if writes and not exists:
                return
            try:
                # appending is the one way of opening for writing that changes nothing
                orig = open(p, 'rb' if not writes else 'r+b' if '+' in m else 'ab')
            except OSError:
                return
            f = threaded_file.ThreadAwareFile.makeThreadAware(orig)
    except (OSError, ValueError, TypeError):
        f = None
    try:
        if writes:
            require(f is None, 'mode %r (%s) is accepted', m, form)
        elif f is not None:
            require(exists, 'mode %r (%s) opens a file that does not exist', m, form)
            v = View(p, 'open')
            for op in 'kWTVr':
                v.step(op, perform(f, op), 'mode %r: ' % m)
        elif form == 'wrap' or m in ('r', 'rb', 'br'):
            require(not exists, 'mode %r (%s) is refused', m, form)
    finally:
        if f is not None:
            f.close()
        if orig is not None:
            orig.close()
    require(os.path.exists(p) == exists, 'mode %r (%s) %s the file', m, form, 'removed' if exists else 'created')
    if exists:
        with open(p, 'rb') as fp:
            require(fp.read() == DATA, 'mode %r (%s) changed the file', m, form)
    ctx.add('states')
    ctx.add('transitions')
    ctx.add('traces')
