""" C21: threads sharing a thread-aware file never disturb each other. """
import itertools
import os
from mc.base import Viol, require, scratch
from mc import sched, fmodel
from mc.fmodel import View, perform, DATA

sched.install()
from ebmlite import threaded_file      # noqa: E402  (the copy that uses the scheduler's locks)

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real code: all schedules with a bounded number of preemptions under a controlled scheduler, against one model file per thread'
RULE = ('Threads each perform a program of operations on one shared thread-aware file. Every schedule up to the preemption bound, switching at every line '
        '(or bytecode instruction) of threaded_file.py that can touch shared state and at every lock, is executed; each result must be what a file of the '
        "thread's own would give, no schedule may deadlock or wait for a timeout, and afterwards the file still works for a new thread and the first one.")
BOUNDS = dict(quick='2 threads: programs of 1 operation of 11 at 2 preemptions (lines) and 1 (instructions), of 2 operations of 6 at 1 preemption; 3 threads: programs of 1 of 5, 1 preemption',
              thorough='2 threads: programs of 1 operation of 11 at 3 preemptions (lines) and 2 (instructions), of 2 of 8 at 2 preemptions, of 3 of 5 at 1; 3 threads: programs of 1 of 7 at 2 preemptions')
CASE_LIMIT = 600
ASSUMPTIONS = ['threads are switched only inside ebmlite/; calls into io and threading are atomic apart from waiting for locks']

ONE = ['r', 's', 't', 'c', 'x', 'w', 'l', 'q', 'N', 'W', 'i']
TWO = ['r', 's', 'c', 'w', 'x', 't', 'R', 'n']
_path = None


def path():
    global _path
    if _path is None or not os.path.exists(_path):
        _path = os.path.join(scratch(), 'shared-%d' % os.getpid())
        with open(_path, 'wb') as f:
            f.write(DATA)
    return _path


def cases(shard, tier):
    for i, c in enumerate(all_cases(tier)):
        if i % 64 == shard:
            yield c


def shards(tier):
    return list(range(64))


def all_cases(tier):
    """ (bound, mode, how the file was made, [program per thread]) """
    deep = tier == 'thorough'
    one = [(a,) for a in ONE]
    starts = ('opened', 'exited', 'moved', 'closed', 'ghost', 'ghostopen')
    for a, b in itertools.combinations_with_replacement(one, 2):
        for st in starts:
            yield (3 if deep else 2, 'line', st, (a, b))
            if deep or st in starts[:2]:
                yield (2 if deep else 1, 'op', st, (a, b))
    two = list(itertools.product(TWO if deep else TWO[:6], repeat=2))
    for a, b in itertools.combinations_with_replacement(two, 2):
        for st in starts[:2]:
            yield (2 if deep else 1, 'line', st, (a, b))
    for t in itertools.combinations_with_replacement(one[:7 if deep else 5], 3):
        yield (2 if deep else 1, 'line', 'moved', t)
    if deep:
        three = list(itertools.product(TWO[:5], repeat=3))
        for a, b in itertools.combinations_with_replacement(three, 2):
            yield (1, 'line', 'moved', (a, b))


def evaluate(case, ctx):
    bound, mode, st, progs = case
    p = path()

    def make():
        # however it was made
        if st == 'exited':
            f = threaded_file.ThreadAwareFile(p)
        elif st == 'moved':
            f = threaded_file.ThreadAwareFile(file=p, mode='rb')
        elif st == 'ghost':
            f = threaded_file.ThreadAwareFile.makeThreadAware(open(p, 'rb'))
        elif st == 'ghostopen':
            f = threaded_file.ThreadAwareFile(p, 'rb', True, None)
        else:
            f = threaded_file.ThreadAwareFile(p, 'rb')
        main = View(p, 'open')
        if st == 'moved':
            main.step('s', perform(f, 's'))
        elif st == 'closed':
            main.step('c', perform(f, 'c'))
        elif st == 'exited':
            main.step('w', perform(f, 'w'))
        elif st.startswith('ghost'):        # a thread that is gone left its file behind, and the next one gets its identifier
            th = sched.Thread(perform, 1000, (f, 's' if st == 'ghostopen' else 'w'))
            th.start()
            th.join()

        def thread(prog):
            return lambda: [perform(f, op) for op in prog]
        return [thread(g) for g in progs], (f, main)

    def check(x, state):
        f, main = state
        for t, prog in zip(x.ts, progs):
            if t.error:
                raise Viol('thread %d ended with %r' % (t.i, t.error))
            v = View(p)
            for op, res in zip(prog, t.result):
                v.step(op, res, 'thread %d (%s): ' % (t.i, ' '.join(prog)))
        ctx.seen('outcomes', repr((progs, [t.result for t in x.ts])))
        # the first thread's file is as it was
        for op in 'tr':
            main.step(op, perform(f, op), 'the first thread afterwards: ')
        f.close()
        f.closeAll()

    n = sched.explore(make, check, bound, mode, ctx)
    ctx.add('scenarios')
    require(n > 0, 'nothing was explored')


def conclude(n, sets, tier):
    if n.get('schedules', 0) < 10 * n.get('scenarios', 0):
        yield ('few',), 'only %r schedules in %r scenarios: nothing interleaves' % (n.get('schedules'), n.get('scenarios'))
