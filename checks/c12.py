""" C12: stream errors surface, and leave no damage behind. """
import io
import lzma
import struct
import zlib
from xml.etree import ElementTree as ET
from mc.base import Viol, require
from mc import model as M, obs, docs
from checks import c09, c10
from ebmlite import core, util, xml_codecs

ID = 'C12'
LEVEL = 'fault_enumeration'
RULE = ('For every reading operation on every document: the k-th read, seek or tell after loading raises (several exception '
        'types), for every k the operation reaches; the error must reach the caller, (for the main types) a retry must give the correct result, and '
        'so must everything read afterwards (thorough: a second fault during the retry). For every writing operation the k-th '
        'write, seek or tell raises; the error must reach the caller and the output be a prefix of the full output. '
        'Non-trivial: fault positions reached.')
BOUNDS = dict(quick='6 documents x 24 reading operations x every k x 3 exception types, 2 documents x every k x 25 more types; 14 writing operations x every k x 7 types; 5 to a full device',
              thorough='6 documents x 24 reading operations x every k x 31 exception types, every pair (k1, k2) of faults; 14 writing operations x every k x 29 types; 5 to a full device')
ERRS = ['OSError', 'KeyError', 'ValueError', 'RuntimeError', 'TypeError', 'LookupError']


class Own(Exception):
    pass


# Only whether these reach the caller is tried
MORE = {e.__name__: (lambda e=e: e('injected')) for e in (
    EOFError, BlockingIOError, InterruptedError, TimeoutError, FileNotFoundError, BrokenPipeError, zlib.error, lzma.LZMAError, StopIteration, AttributeError,
    MemoryError, IndexError, NameError, ImportError, AssertionError, NotImplementedError, ArithmeticError, RecursionError, struct.error, UnicodeError,
    io.UnsupportedOperation, KeyboardInterrupt, SystemExit, Own)}
MORE['UnicodeDecodeError'] = lambda: UnicodeDecodeError('utf_8', b'', 0, 1, 'injected')


class Faulty(io.RawIOBase):
    """ Seekable stream on which the k-th operation after arming fails. """

    def __init__(self, data=b''):
        self.f = io.BytesIO(data)
        self.arm(0, None)

    def arm(self, k, err):
        self.left, self.err, self.ops, self.fired = k, err, 0, None

    def tick(self):
        self.ops += 1
        if self.left:
            self.left -= 1
            if not self.left:
                self.fired = MORE[self.err]() if self.err in MORE else {'OSError': OSError(5, 'injected'), 'KeyError': KeyError('injected'),
                              'ValueError': ValueError('injected'), 'RuntimeError': RuntimeError('injected'),
                              'TypeError': TypeError('injected'), 'LookupError': IndexError('injected')}[self.err]
                raise self.fired

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return True

    def read(self, n=-1):
        self.tick()
        return self.f.read(n)

    def readinto(self, b):
        self.tick()
        return self.f.readinto(b)

    def seek(self, *a):
        self.tick()
        return self.f.seek(*a)

    def tell(self):
        self.tick()
        return self.f.tell()

    def write(self, b):
        self.tick()
        return self.f.write(b)


class FaultyText(io.StringIO):
    """ Text stream whose k-th write fails. """

    def __init__(self):
        super().__init__()
        self.left, self.fired, self.ops = 0, None, 0

    arm = Faulty.arm
    tick = Faulty.tick

    def write(self, s):
        self.tick()
        return super().write(s)

    def flush(self):
        self.tick()
        return super().flush()


def d3():
    """ Unknown-size runs of containers, nested. """
    return M.build([docs.HEADER])[0] + c09.inf('Seg', c09.inf('Cl', c09.el(('U', b'\1', None), ('B', b'xyz', None))) +
        c09.inf('Cl', c09.el(('U', b'\2', None))) + c09.inf('Grp', c09.inf('Sub', c09.el(('B', b'q', None)), 2), 8)) + \
        c09.el(('B', b'end', None), ('Z', b'x', None))


DOCS = [c09.d1, c09.d2, d3, lambda: M.build([('Grp', docs.LEAVES[:12], None), ('S', b'tail', None)])[0],
        lambda: M.build([('Seg', [('LF', docs.F64, None), ('LD', docs.DATE, None), ('LU', b'\1', None), ('PB', b'x', None), ('PZ', b'y', None)], 4)])[0],
        lambda: M.build([('Void', b'\xff' * 9, None), ('EM', [], None), ('Sub', [('Sub', [('Sub', [('U', b'\1', None)], None)], None)], None)])[0]]


def pp(doc, **kw):
    out = io.StringIO()
    util.pprint(doc, out=out, **kw)
    return out.getvalue()


def snap(e):
    return (e.id, e.offset, e.size)


def master(d):
    return d['m']


READ = {
    'iter': lambda d: [snap(e) for e in d['doc']],
    'len': lambda d: len(d['doc']),
    'tree': lambda d: [obs.tree(e) for e in d['doc']],
    'index': lambda d: [snap(d['doc'][i]) for i in range(len(d['doc']))],
    'flat': lambda d: [snap(e) for e in util.flatiter(d['doc'])],
    'dump': lambda d: repr(d['doc'].dump()),
    'pprint': lambda d: pp(d['doc'], binary_codec='hex', void_codec='hex'),
    'pprint0': lambda d: pp(d['doc'], values=False),
    'xml': lambda d: ET.tostring(util.toXml(d['doc'])),
    'xml2': lambda d: ET.tostring(util.toXml(d['doc'], offsets=False, sizes=False, types=False, ids=False, binary_codec='hex', void_codec='base64')),
    'docsize': lambda d: d['doc'].size,
    'msize': lambda d: d['m'].size,
    'mlen': lambda d: len(d['m']),
    'mvalue': lambda d: [snap(e) for e in d['m'].value],
    'miter': lambda d: [snap(e) for e in d['m']],
    'mtree': lambda d: obs.tree(d['m']),
    'mraw': lambda d: (d['m'].getRaw(), d['m'].getRawValue()),
    'mdump': lambda d: repr(d['m'].dump()),
    'mgc': lambda d: (d['m'].gc(True), None)[1],
    'mgcv': lambda d: (d['m'].gc(True), obs.tree(d['m']))[1],
    'leaves': lambda d: [repr(e.value) for e in d['leaves']],
    'lraw': lambda d: [(e.getRaw(), e.getRawValue()) for e in d['leaves']],
    'lgcv': lambda d: [(e.gc(), repr(e.value))[1] for e in d['leaves']],
    'eq': lambda d: [e == f for e, f in zip(d['leaves'], d['leaves2'])],
}


def fresh(di):
    """ A loaded document, its first container and held leaves, none cached. """
    st = Faulty(DOCS[di]())
    doc = obs.vs().load(st, headers=True)
    m = leaves = None
    tops = [t for t in doc if isinstance(t, core.MasterElement) and t.name != 'EBML']
    m = tops[-1 if di == 5 else 0]
    d = dict(doc=doc, st=st, m=m)
    for key in ('leaves', 'leaves2'):
        d[key] = [e for e in util.flatiter(doc) if not isinstance(e, core.MasterElement)]
    # containers and held leaves have nothing cached
    d['m'] = [t for t in doc if t.offset == m.offset][0]
    d['m'].gc(True)
    for e in d['leaves'] + d['leaves2']:
        e.gc()
    return d


def chained(e, fired):
    seen = 0
    while e is not None and seen < 20:
        if e is fired:
            return True
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


def attempt(d, f, k, err, what):
    """ Run f with the k-th operation failing. True if the fault was reached. """
    d['st'].arm(k, err)
    try:
        r = f(d)
    except BaseException as e:
        if d['st'].fired is None and not isinstance(e, Exception):
            raise
        fired = d['st'].fired
        d['st'].arm(0, None)
        require(fired is not None, '%s raised %r without a fault', what, e)
        require(chained(e, fired), '%s: the stream raised %r but the caller got %r', what, fired, e)
        return True
    fired = d['st'].fired
    d['st'].arm(0, None)
    require(fired is None, '%s: the stream raised %r, but the operation returned %r', what, fired, r)
    return False


_base = {}


def baseline(di):
    if di not in _base:
        _base[di] = {name: f(fresh(di)) for name, f in READ.items()}
        nodes, _ = M.parse(DOCS[di](), M.VS)
        obs.check_all(fresh(di)['doc'], nodes, DOCS[di]())
    return _base[di]


AFTER = ('tree', 'msize', 'mlen', 'mtree', 'len', 'leaves')


def evaluate_read(case, ctx):
    _, di, name, err, pair = case
    base = baseline(di)
    f = READ[name]
    k = 1
    while True:
        d = fresh(di)
        if not attempt(d, f, k, err, '%s with fault %d' % (name, k)):
            break
        ctx.add('evaluations')
        ctx.add('distinct_nontrivial')
        if pair:
            k2 = 1
            while True:
                d2 = fresh(di)
                attempt(d2, f, k, err, name)
                if not attempt(d2, f, k2, err, '%s with fault %d, again with fault %d' % (name, k, k2)):
                    break
                ctx.add('evaluations')
                r = f(d2)
                require(r == base[name], '%s after faults %d and %d gives %r, expected %r', name, k, k2, r, base[name])
                k2 += 1
        r = f(d)
        require(r == base[name], '%s after a fault in operation %d gives %r, expected %r', name, k, r, base[name])
        for n2 in AFTER:
            # each on its own document, with the same fault
            d = fresh(di)
            attempt(d, f, k, err, name)
            r = READ[n2](d)
            require(r == base[n2], '%s after %s failed in operation %d gives %r, expected %r', n2, name, k, r, base[n2])
        k += 1
        if k > 3000:
            raise Viol('no end of stream operations')
    ctx.add('scripts')


def warm(di):
    """ The same, when everything was read once before. """
    d = fresh(di)
    for e in d['leaves']:
        e.value
    for e in d['m'].value:
        e.value
    return d


def evaluate_warm(case, ctx):
    _, di, name, err = case
    base, f, k = baseline(di), READ[name], 1
    require(f(warm(di)) == base[name], '%s differs when everything was read before', name)
    while True:
        d = warm(di)
        if not attempt(d, f, k, err, '%s, with everything read before, with fault %d' % (name, k)):
            break
        r = f(d)
        require(r == base[name], '%s after a fault in operation %d, with everything read before, gives %r, expected %r', name, k, r, base[name])
        ctx.add('evaluations')
        ctx.add('distinct_nontrivial')
        k += 1
    ctx.add('scripts')


def evaluate_more(case, ctx):
    _, di, name = case
    for err in MORE:
        k = 1
        while attempt(fresh(di), READ[name], k, err, '%s with fault %d' % (name, k)):
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')
            k += 1
    ctx.add('scripts')


DATA = {'Grp': {'U': 5, 'S': 'text', 'B': b'bin', 'Sub': [{'U': 1}, {'B': b'2'}]}, 'U': [1, 2, 3], 'Void': b''}
PAIRS = [('U', 1), ('Grp', {'U': 5}), ('Seg', {'Cl': [{'U': 1}, {'U': 2}]}), ('B', b'x' * 300), ('Z', 'h\xe9')]
XML = ('<VtestDocument><Grp><U value="5"/><S value="abc"/><Sub sizeLength="2"><B>eHl6</B></Sub></Grp><!--c-->'
       '<U value="7"/><Mine id="0x4FFE">aGk=</Mine><Void size="9"/></VtestDocument>')


def root_name():
    return obs.vs().document.__name__


def xml():
    return ET.fromstring(XML.replace('VtestDocument', root_name()))


def _doc():
    return obs.load(c09.d1())


WRITE = {
    'encode': (Faulty, lambda s: obs.vs().encode(s, DATA)),
    'encodeh': (Faulty, lambda s: obs.vs().encode(s, DATA, headers=True)),
    'pairs': (Faulty, lambda s: obs.vs().encode(s, PAIRS, headers=True)),
    'docenc': (Faulty, lambda s: obs.vs().document.encode(s, PAIRS)),
    'xml': (Faulty, lambda s: util.xml2ebml(xml(), s, obs.vs(), headers=False)),
    'xmlh': (Faulty, lambda s: util.xml2ebml(xml(), s, obs.vs(), headers=True)),
    'xmlw': (Faulty, lambda s: util.xml2ebml(xml(), s, obs.vs(), sizeLength=8)),
    'pprint': (FaultyText, lambda s: util.pprint(_doc(), out=s, binary_codec='hex')),
    'pprintv': (FaultyText, lambda s: util.pprint(_doc(), out=s, values=False, void_codec='base64')),
    'hex': (FaultyText, lambda s: xml_codecs.HexCodec(cols=4).encode(bytes(range(40)), stream=s)),
    'b64': (FaultyText, lambda s: xml_codecs.Base64Codec(cols=8).encode(bytes(range(40)), stream=s, indent='  ')),
    'schemata': (FaultyText, lambda s: util.printSchemata(['{ebmlite.schemata}'], out=s)),
    'unb64': (Faulty, lambda s: xml_codecs.Base64Codec.decode('YWJj\nZGVm', stream=s)),
    'unhex': (Faulty, lambda s: xml_codecs.HexCodec.decode('[0000] 0102 03\n[0003] 04', stream=s)),
}


def out(s):
    return s.f.getvalue() if isinstance(s, Faulty) else s.getvalue()


def evaluate_write(case, ctx):
    _, name, err = case
    cls, f = WRITE[name]
    s = cls()
    s.arm(0, None)
    f(s)
    full = out(s)
    require(len(full) > 0, 'nothing written')
    k = 1
    while True:
        s = cls()
        s.arm(k, err)
        try:
            r = f(s)
        except Exception as e:
            fired = s.fired
            require(fired is not None and chained(e, fired), '%s: stream error %r, caller got %r', name, fired, e)
        else:
            require(s.fired is None, '%s: the stream raised %r, but the operation returned %r', name, s.fired, r)
            require(out(s) == full, '%s writes differently: %r', name, out(s))
            break
        part = out(s)
        require(full.startswith(part), '%s failing in operation %d left %r, not a prefix of %r', name, k, part, full)
        ctx.add('evaluations')
        ctx.add('distinct_nontrivial')
        s = cls()
        s.arm(0, None)
        f(s)
        require(out(s) == full, '%s afterwards writes %r', name, out(s))
        k += 1
    ctx.add('scripts')


# Files that are always full; the error may only come when they are closed
FULL = {
    'xml': lambda p: util.xml2ebml(xml(), p, obs.vs()),
    'loadxml': lambda p: util.loadXml(xml(), obs.vs(), p),
    'schemata': lambda p: util.printSchemata([], out=p),
    'encode': lambda p: _into(p, 'wb', lambda f: obs.vs().encode(f, DATA)),
    'pprint': lambda p: _into(p, 'w', lambda f: util.pprint(_doc(), out=f)),
}


def _into(path, mode, f):
    with open(path, mode) as fp:
        f(fp)


def evaluate_full(case, ctx):
    import pathlib
    for p in ('/dev/full', pathlib.Path('/dev/full')):
        try:
            r = FULL[case[1]](p)
        except OSError as e:
            require(e.errno == 28, '%s to a full device raised %r', case[1], e)
        else:
            raise Viol('%s to a full device returned %r' % (case[1], r))
        ctx.add('evaluations')
        ctx.add('distinct_nontrivial')
    ctx.add('scripts')


def shards(tier):
    errs = ERRS[:3] if tier == 'quick' else ERRS
    s = [('r', d, n, e) for d in range(len(DOCS)) for n in READ for e in errs]
    s += [('h', d, n, e) for d in range(len(DOCS)) for n in READ for e in errs[:2 if tier == 'quick' else None]]
    s += [('m', d, n) for d in (range(len(DOCS)) if tier != 'quick' else (1, 2)) for n in READ]
    s += [('w', n) for n in WRITE] + [('f', n) for n in FULL]
    if tier == 'thorough':
        s += [('p', d, n) for d in range(len(DOCS)) for n in READ]
    return s


def cases(shard, tier):
    if shard[0] == 'r':
        yield ('r', shard[1], shard[2], shard[3], False)
    elif shard[0] in 'fmh':
        yield shard
    elif shard[0] == 'p':
        yield ('r', shard[1], shard[2], 'OSError', True)
    else:
        for e in ERRS[:3] + ['BrokenPipeError', 'BlockingIOError', 'AttributeError', 'EOFError'] if tier == 'quick' else ERRS + sorted(set(MORE) - {'KeyboardInterrupt', 'SystemExit'}):
            yield ('w', shard[1], e)


def evaluate(case, ctx):
    dict(r=evaluate_read, w=evaluate_write, f=evaluate_full, m=evaluate_more, h=evaluate_warm)[case[0]](case, ctx)


CASE_LIMIT = 600
