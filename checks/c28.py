""" C28: schemata can be loaded from several threads at once. """
import io
import itertools
import os
from mc.base import Viol, require, scratch
from mc import sched

sched.install()
from ebmlite import core      # noqa: E402  (the copy that uses the scheduler's locks)

ID = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real code: all schedules with a bounded number of preemptions under a controlled scheduler, against the definitions asked for'
RULE = ('Two or three threads load, reload and parse schemata (by path, from the current directory, the search path or one of their own), of the same or of different definitions, with an empty or filled cache. Every schedule up to the '
        'preemption bound is executed, switching at every line of core.py that can touch shared state ("line"), or that touches an attribute or module variable '
        'changed after construction ("hot"); each result is compared with its definition at once, and the loads that follow must give one of the instances.')
BOUNDS = dict(quick='all pairs of 14 loads at 1 preemption (line, hot), of 5 at 2 (hot) with an empty cache, of 6 where one replaces what the other gets at 2 (hot) with a filled one; pairs of programs of 2 loads of 4 at 1 preemption (hot), 3 threads of 4 loads at 1 preemption (hot)',
              thorough='all pairs of 14 loads at 1 preemption (line) and 2 (hot), of 5 at 3 (hot), pairs of programs of 2 loads of 6 at 1 preemption (hot), 3 threads of 6 loads at 1 preemption (hot); empty and filled cache')
CASE_LIMIT = 900
ASSUMPTIONS = ['threads are switched only inside ebmlite/; parsing XML, reading files and importing are atomic']
FILES = ('core.py', 'schemata/')


def text(mark, extra=''):
    return ('<Schema><BinaryElement name="Void" id="0xEC" global="1"/><MasterElement name="%s" id="0xA0" multiple="1">'
            '<UIntegerElement name="U" id="0x81"/>%s</MasterElement></Schema>') % (mark, extra)


OPS = {'a': ('L', 'a', {}), 'A': ('Labs', 'a', {}), 'p': ('Lpath', 'a', {}), 'b': ('L', 'b', {}), 'r': ('L', 'a', dict(reload=True)), 'R': ('Labs', 'a', dict(reload=True)),
       'n': ('P', 'n', {}), 'm': ('P', 'm', {}), 'N': ('P', 'n', dict(reload=True)), 'x': ('L', 'bad', {}), 'o': ('L', 'none', {}),
       'q': ('Lq', 'q', {}), 's': ('L', 's', {}), 't': ('Lt', 't', {})}
TWO = ['a', 'r', 'A', 'n', 'N', 'x']
THREE = ['a', 'r', 'p', 'n', 'x', 'A']
_n = itertools.count()
SEARCH = [p for p in core.SCHEMA_PATH if p]


def all_cases(tier):
    deep = tier == 'thorough'
    for warm in (False, True):
        for a, b in itertools.combinations_with_replacement(OPS, 2):
            if a in 'xo' and b in 'xo':
                continue
            core_ops = a in TWO[:5] and b in TWO[:5]
            replaced = warm and a + b in ('ar', 'aR', 'Ar', 'AR', 'rA', 'pR', 'nN')     # what is cached is replaced
            yield ((3 if core_ops else 2) if deep else 2 if core_ops and not warm or replaced else 1, 'hot', warm, ((a,), (b,)))
            yield (1, 'line', warm, ((a,), (b,)))
        if deep or not warm:
            for a, b in itertools.combinations_with_replacement(list(itertools.product(TWO[:6 if deep else 4], repeat=2)), 2):
                yield (1, 'hot', warm, (a, b))
            for t in itertools.combinations_with_replacement(THREE[:6 if deep else 4], 3):
                yield (1, 'hot', warm, tuple((x,) for x in t))


def shards(tier):
    return list(range(96))


def cases(shard, tier):
    for i, c in enumerate(all_cases(tier)):
        if i % 96 == shard:
            yield c


def content(s):
    return (sorted(s.elementsByName), sorted(s.elements), len(s.elementInfo), len(s.children), sorted(s.globals), issubclass(s.document, core.Document), s.document.schema is s,
            sorted((c.name, len(c.children or ()), c.schema is s, bool(c.multiple)) for c in s.elements.values()))


_want = {}


def want(mark):
    """ The content of the schema when loaded alone. """
    if mark not in _want:
        s = core.Schema(io.StringIO(text(mark)))
        c = content(s)
        require(c[0] == sorted(['Void', 'U', mark]) and c[3] == 2 and c[4] == [0xEC], 'a schema loaded alone has the content %r', c)
        _want[mark] = c
    return _want[mark]


def evaluate(case, ctx):
    bound, mode, warm, progs = case
    root = scratch()
    marks = {'a': 'Alpha', 'b': 'Beta', 'n': 'Nu', 'm': 'Mu', 'q': 'Kappa', 's': 'Sigma', 't': 'Tau'}
    for d in ('here', 'there', 'where'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for m in marks.values():
        want(m)
    last = []

    def make():
        for p in last:
            os.remove(p)
        last.clear()
        k = '%d-%d' % (os.getpid(), next(_n))
        os.chdir(root)
        names = {}
        for x in ('a', 'b', 'bad', 'q', 's', 't'):
            names[x] = '%s-%s.xml' % (x if x != 't' else 'q', k)
            # t has the name of q, and is in another folder searched on request;
            # q is in a folder searched on request, s in one on the search path
            p = os.path.join(root, {'q': 'there', 's': 'here', 't': 'where'}.get(x, ''), names[x])
            with open(p, 'w') as f:
                f.write(text(marks[x]) if x != 'bad' else text('Bad', '<OddElement name="Odd" id="0x82"/>'))
            last.append(p)
        search = ['', os.path.join(root, 'here'), *SEARCH]
        core.SCHEMA_PATH[:] = search
        names.update(none='none-%s.xml' % k, n='n-' + k, m='m-' + k)
        core.SCHEMATA.clear()

        def do(op):
            how, x, kw = OPS[op]
            try:
                if how == 'P':
                    s = core.parseSchema(text(marks[x]), names[x], **kw)
                else:
                    nm = names[x]
                    kw = dict(kw, paths=[os.path.join(root, {'Lq': 'there', 'Lt': 'where'}[how])]) if how in ('Lq', 'Lt') else kw
                    s = core.loadSchema(os.path.join(root, nm) if how == 'Labs' else os.path.join('.', nm) if how == 'Lpath' else nm, **kw)
            except Exception as e:
                return 'exc', type(e).__name__, str(e)
            return 'ok', s, content(s)
        state = dict(names=names, do=do, old={}, search=search)
        if warm:
            for op in 'anb':
                r = do(op)
                require(r[0] == 'ok', 'loading alone failed: %r', r)
                state['old'][OPS[op][1]] = r[1]

        def thread(prog):
            return lambda: [do(op) for op in prog]
        return [thread(p) for p in progs], state

    def check(x, st):
        given = {k: [v] for k, v in st['old'].items()}
        reloaded = set()
        for t, prog in zip(x.ts, progs):
            if t.error is not None:
                raise Viol('thread %d (%s) failed with %r' % (t.i, ' '.join(prog), t.error))
            mine = {}
            for op, res in zip(prog, t.result):
                how, d, kw = OPS[op]
                who = 'thread %d (%s): %s' % (t.i, ' '.join(prog), op)
                if d in ('bad', 'none'):
                    require(res[0] == 'exc' and (d == 'bad' or res[1] == 'FileNotFoundError'), '%s gave %r', who, res)
                    continue
                require(res[0] == 'ok', '%s failed: %r', who, res[1:])
                require(res[2] == want(marks[d]), '%s gave a schema of %r, expected %r', who, res[2], want(marks[d]))
                if kw.get('reload'):
                    require(all(res[1] is not o for o in given.get(d, ()) if o is st['old'].get(d)), '%s reloaded the old instance', who)
                    reloaded.add(d)
                given.setdefault(d, []).append(res[1])
                mine[d] = res[1]
        ctx.seen('outcomes', repr((progs, warm, [[given[d].index(r[1]) if r[0] == 'ok' else r[1] for r, o in zip(t.result, p) for d in [OPS[o][1]]] for t, p in zip(x.ts, progs)])))
        require(core.SCHEMA_PATH == st['search'], 'the search path is now %r', core.SCHEMA_PATH)
        # a reload of something cached replaces it; without one it stays
        for d, insts in given.items():
            fin = [st['do'](op) for op in ({'a': 'aApa', 'b': 'bb', 'n': 'nn', 'm': 'mm', 'q': 'qq', 's': 'ss', 't': 'tt'}[d])]
            for r in fin:
                require(r[0] == 'ok', 'a later load of %s failed: %r', d, r)
                require(r[1] is fin[0][1], 'later loads of %s give different instances', d)
                require(r[2] == want(marks[d]), 'a later load of %s gives the content %r', d, r[2])
            require(any(fin[0][1] is i for i in insts), 'a later load of %s gives an instance no earlier load gave', d)
            if d in st['old']:
                require((fin[0][1] is st['old'][d]) == (d not in reloaded), 'a later load of %s gives the %s instance', d, 'old' if d in reloaded else 'new')

    sched.explore(make, check, bound, mode, ctx, files=FILES)
    ctx.add('scenarios')


def conclude(n, sets, tier):
    if n.get('schedules', 0) < 5 * n.get('scenarios', 0):
        yield ('few',), 'only %r schedules in %r scenarios: nothing interleaves' % (n.get('schedules'), n.get('scenarios'))
