""" C23: threads can read one document at the same time. """
import io
import itertools
import os
from mc.base import Viol, require, scratch
from mc import sched, docs, model as M

sched.install()
from ebmlite import core, util, threaded_file      # noqa: E402
from mc import obs                                  # noqa: E402
obs.core = core                                     # the copy that uses the scheduler's locks
obs._vs = None

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real code: all schedules with a bounded number of preemptions under a controlled scheduler, against a builder'
RULE = ('Two (or three) threads perform operations on shared elements of one document read through a thread-aware file. Every schedule up to the preemption '
        'bound is executed, switching at every line of core.py, decoding.py and util.py that can touch shared state ("line"), or that touches an attribute '
        'assigned after construction ("hot"); every result is compared with the builder, and the document is read completely afterwards.')
BOUNDS = dict(quick='all pairs of 25 operations from 2 starting states, of 16 on elements made by hand, at 1 preemption (hot), light pairs at 2 preemptions (line), pairs of 2-operation programs of 6 at 1 preemption, 3 threads of 1 of 6 operations at 1 preemption',
              thorough='all pairs of 25 operations from 3 starting states at 1 preemption (line) and 2 (hot), of 16 on elements made by hand at 2 (hot), light pairs at 3 preemptions, pairs of 2-operation programs of 8 at 2 preemptions, 3 threads of 1 of 8 operations at 2 preemptions')
CASE_LIMIT = 900
ASSUMPTIONS = ['threads are switched only inside ebmlite/; calls into io and threading are atomic apart from waiting for locks']
FILES = ('core.py', 'decoding.py', 'util.py')


def document():
    """ Shared elements by name: g an unknown-size container with s, b, f and an unknown-size container n; p sized, pre-read; x unknown. """
    kids = M.build([('U', b'\x07', None), ('S', b'text', 2), ('B', b'\x81\x81', None), ('LUX', b'', None)][:3])[0]
    sub = M.id_bytes(M.VS.byName['Sub'].id) + M.size_desc(None, 1) + M.build([('U', b'\x09', None), ('B', b'deep', 4)])[0]
    g = M.id_bytes(M.VS.byName['Grp'].id) + M.size_desc(None, 8) + kids + sub
    rest = M.build([('Seg', [('PM', [('U', b'\1', None)], None), ('Cl', [('S', b'q', None)], 2)], None), (0x1FEDCBA9, b'unk', None)])[0]
    data = g + rest
    return data, M.parse(data, M.VS)[0]


DOC, NODES = document()
ND = {'g': NODES[0], 's': NODES[0].children[1], 'b': NODES[0].children[2], 'n': NODES[0].children[3], 'p': NODES[1], 'x': NODES[2], 'm': NODES[1].children[0]}
_path = None


def path():
    global _path
    if _path is None or not os.path.exists(_path):
        _path = os.path.join(scratch(), 'doc-%d' % os.getpid())
        with open(_path, 'wb') as f:
            f.write(DOC)
    return _path


class Shared:
    def __init__(self, warm):
        self.file = threaded_file.ThreadAwareFile(path(), 'rb')
        self.doc = obs.vs().load(self.file, headers=True)
        roots = list(self.doc)
        g, p, x = roots
        if warm == 'value':
            for el in roots:
                warmup(el)
            kids = g.value
            self.e = dict(g=g, p=p, x=x, s=kids[1], b=kids[2], n=kids[3], m=p.value[0])
        elif warm == 'made':
            # elements made by hand, whose size nothing has asked for yet
            def made(k):
                nd = ND[k]
                size = None if k in 'gn' else nd.size
                return obs.vs()[nd.id](self.file, nd.off, size, nd.poff) if nd.d is not None else obs.vs().UNKNOWN(self.file, nd.off, size, nd.poff, eid=nd.id, schema=obs.vs())
            self.e = {k: made(k) for k in ND}
        else:
            # elements whose size has not been determined yet
            kids = list(g)
            self.e = dict(g=next(iter(self.doc)), p=p, x=x, s=kids[1], b=kids[2], m=next(iter(p)))
            self.e['n'] = list(g)[3]


def warmup(el):
    v = el.value
    if isinstance(el, core.MasterElement):
        for c in v:
            warmup(c)


def ntree(nd):
    if nd.children is not None:
        v = tuple(ntree(c) for c in nd.children)
    else:
        v = nd.value
        if isinstance(v, bytearray):
            v = bytes(v)
    return (nd.name, nd.id, nd.off, nd.size, v)


def val(el):
    v = el.value
    if v is None:
        return None
    return tuple(obs.tree(c) for c in v) if isinstance(el, core.MasterElement) else bytes(v) if isinstance(v, bytearray) else v


def nval(nd):
    return ntree(nd)[4]


def dumped(nd):
    if nd.children is None:
        v = nd.value
        return v
    out = {}
    for c in nd.children:
        if c.d is not None and c.d.multiple:
            out.setdefault(c.name, []).append(dumped(c))
        else:
            out[c.name] = dumped(c)
    return out


# name -> (function of Shared, expected result or None)
OPS = {'D': (lambda w: tuple(obs.tree(e) for e in w.doc), tuple(ntree(n) for n in NODES)),
       'L': (lambda w: len(w.doc), len(NODES)),
       '1': (lambda w: obs.tree(w.doc[1]), ntree(NODES[1])),
       'dump': (lambda w: w.e['g'].dump(), dumped(ND['g'])),
       'xml': (lambda w: [(e.tag, e.get('value') or (e.text or '').strip()) for e in util.toXml(w.e['n']).iter()], [('Sub', ''), ('U', '9'), ('B', 'ZGVlcA==')]),
       'flat': (lambda w: [(e.name, e.offset) for e in util.flatiter(w.e['g'])], [(n.name, n.off) for n in M.walk(ND['g'].children)])}
for k in ND:
    nd = ND[k]
    OPS['v' + k] = (lambda w, k=k: val(w.e[k]), nval(nd))
    OPS['r' + k] = (lambda w, k=k: bytes(w.e[k].getRaw()), DOC[nd.off:nd.end])
    OPS['z' + k] = (lambda w, k=k: w.e[k].size, nd.size)
    OPS['c' + k] = (lambda w, k=k: w.e[k].gc(recurse=True) and None, None)
    OPS['d' + k] = (lambda w, k=k: w.e[k].gc() and None, None)
    OPS['w' + k] = (lambda w, k=k: bytes(w.e[k].getRawValue()), DOC[nd.poff:nd.end])
    if nd.children is not None:
        OPS['i' + k] = (lambda w, k=k: tuple(obs.tree(c) for c in w.e[k]), nval(nd))
        OPS['l' + k] = (lambda w, k=k: len(w.e[k]), len(nd.children))
        OPS['x' + k] = (lambda w, k=k: obs.tree(w.e[k][-1]), ntree(nd.children[-1]))

PAIRS = ['D', 'L', '1', 'dump', 'xml', 'flat', 'vg', 'ig', 'lg', 'zg', 'rg', 'xg', 'cg', 'dg', 'vs', 'cs', 'rs', 'vn', 'zn', 'cn', 'ip', 'vp', 'lp', 'wx', 'vx', 'vm']
LIGHT = ['lg', 'zg', 'vs', 'cs', 'ds', 'cg', 'dg', 'rs', 'vn', 'zn', 'ln', 'cn', 'rn', 'vx', 'wx', 'lp', 'vm', 'cm']
TWO = ['vs', 'cs', 'lg', 'cg', 'vn', 'zn', 'cn', 'xn']
THREE = ['vs', 'cs', 'vn', 'cn', 'ln', 'zn', 'cg', 'vb']


def all_cases(tier):
    deep = tier == 'thorough'
    made = ['vg', 'ig', 'lg', 'zg', 'rg', 'xg', 'cg', 'vn', 'zn', 'ln', 'in', 'dump', 'flat', 'xml', 'vs', 'wx']
    for a, b in itertools.combinations_with_replacement(made, 2):
        yield (2 if deep else 1, 'hot', 'made', ((a,), (b,)))
    for a, b in itertools.combinations_with_replacement(['lg', 'zg', 'zn', 'vn', 'ln'], 2):
        yield (3 if deep else 2, 'hot', 'made', ((a,), (b,)))
    for warm in ('fresh', 'value') if not deep else ('fresh', 'value', 'gc'):
        for a, b in itertools.combinations_with_replacement(PAIRS, 2):
            yield (1, 'hot', warm, ((a,), (b,)))
            if deep:
                yield (1, 'line', warm, ((a,), (b,)))
        for a, b in itertools.combinations_with_replacement(LIGHT, 2):
            yield (2, 'hot', warm, ((a,), (b,)))
            yield (1 if not deep else 2, 'line', warm, ((a,), (b,)))
            if deep:
                yield (3, 'hot', warm, ((a,), (b,)))
        two = list(itertools.product(TWO[:8 if deep else 6], repeat=2))
        if warm == 'value' or deep:
            for a, b in itertools.combinations_with_replacement(two, 2):
                yield (2 if deep else 1, 'hot', warm, (a, b))
        for t in itertools.combinations_with_replacement(THREE[:8 if deep else 6], 3):
            yield (2 if deep else 1, 'hot', warm, tuple((x,) for x in t))


def shards(tier):
    return list(range(96))


def cases(shard, tier):
    for i, c in enumerate(all_cases(tier)):
        if i % 96 == shard:
            yield c


def evaluate(case, ctx):
    bound, mode, warm, progs = case

    def make():
        w = Shared(warm if warm in ('fresh', 'made') else 'value')
        if warm == 'gc':
            for el in w.e.values():
                el.gc(recurse=True)

        def thread(prog):
            return lambda: [OPS[op][0](w) for op in prog]
        return [thread(p) for p in progs], w

    def check(x, w):
        try:
            for t, prog in zip(x.ts, progs):
                if t.error is not None:
                    raise Viol('thread %d (%s) failed with %s: %s' % (t.i, ' '.join(prog), type(t.error).__name__, t.error))
                for op, got in zip(prog, t.result):
                    want = OPS[op][1]
                    if op[0] not in 'cd' or op == 'dump':
                        require(got == want, 'thread %d (%s): %s gave %r, expected %r', t.i, ' '.join(prog), op, got, want)
            ctx.seen('finals', repr(sorted((k, getattr(e, "_value", None) is None) for k, e in w.e.items())))
            # everything is as it should be afterwards
            for k, el in w.e.items():
                if k == 'n' or k == 'm':
                    continue        # seen in g and p
                require(el.size == ND[k].size, 'afterwards the size of %s is %r', k, el.size)
                require(val(el) == nval(ND[k]), 'afterwards the value of %s is %r', k, val(el))
                if ND[k].children is not None:
                    require(len(el) == len(ND[k].children), 'afterwards the length of %s is %r', k, len(el))
            require(len(w.doc) == len(NODES), 'afterwards the length of the document is %r', len(w.doc))
        finally:
            w.file.closeAll()

    sched.explore(make, check, bound, mode, ctx, files=FILES)
    ctx.add('scenarios')


def conclude(n, sets, tier):
    if n.get('schedules', 0) < 10 * n.get('scenarios', 0):
        yield ('few',), 'only %r schedules in %r scenarios: nothing interleaves' % (n.get('schedules'), n.get('scenarios'))
