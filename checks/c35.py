""" C35: work grows only in proportion to what is gone through. """
import io
import itertools
import os
import sys
from xml.etree import ElementTree as ET
from mc.base import require, scratch
from mc import model as M, obs, docs
from checks import c31
from ebmlite import core, util, xml_codecs

ID = 'C35'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all units of a bounded grammar x repetition, place and operation, with every step of the code and every access to the stream counted'
RULE = ('Every forest of up to n elements is repeated k and 4k times, at the root, in a sized and in an unknown-size container, and gone through with every operation; the lines of code executed in ebmlite, the accesses '
        'to the stream and the bytes read are counted and must grow no more than fourfold. Operations that concern a fixed number of elements (loading, the first elements, an element by index, passing over containers, '
        'the value and raw data of the last of them, anything asked a second time) must cost the same for k and for 4k. Likewise nesting, encoding, conversion in both directions, codecs by size of data, and schemata by number of definitions, '
        'in every format. Non-trivial: measurements in which the larger case took more steps.')
BOUNDS = dict(quick='units of up to 2 of 13 leaves and 4 containers x 12 and 48 repetitions x 3 places x 30 operations; nesting to 64; data of up to 16 KiB',
              thorough='the same, also with units of 3 of 5 leaves and 2 containers, and with 192 repetitions for units of 1; nesting to 200 (of unknown size, 100); data of up to 64 KiB')
ASSUMPTIONS = ['a step is a line of code of the package executed, or a call of it; work within single calls of CPython itself is not counted (other than bytes read)',
               'a tenth more than in proportion, and a fixed amount, are tolerated', 'containers of unknown size within each other may take time with the square of the nesting; so may a flat iteration with the nesting']

WHERE = os.path.dirname(os.path.realpath(core.__file__))
LEAVES, MASTERS, PLACES = c31.LEAVES, c31.MASTERS, c31.PLACES


class Tally(io.BytesIO):
    def __init__(self, data):
        super().__init__(data)
        self.ops = self.got = 0

    def seek(self, *args):
        self.ops += 1
        return super().seek(*args)

    def tell(self):
        self.ops += 1
        return super().tell()

    def read(self, *args):
        self.ops += 1
        r = super().read(*args)
        self.got += len(r)
        return r


class TooMany(BaseException):
    pass


LIMIT = 5000000             # of steps: several times what any measurement takes
_known = {}


def steps(fn, *args):
    """ The number of lines and calls of the package. """
    n = [0]

    def inner(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > LIMIT:
                raise TooMany()
        return inner

    def outer(frame, event, arg):
        name = frame.f_code.co_filename
        if name not in _known:
            _known[name] = os.path.realpath(name).startswith(WHERE)
        if not _known[name]:
            return None
        n[0] += 1
        return inner
    old = sys.gettrace()
    sys.settrace(outer)
    try:
        fn(*args)
    except TooMany:
        pass
    finally:
        sys.settrace(old)
    require(n[0] <= LIMIT, 'more than %d steps are taken', LIMIT)
    return n[0]


def measure(fn, stream, *args):
    a, b = (stream.ops, stream.got) if stream is not None else (0, 0)
    n = steps(fn, *args)
    return (n,) + ((stream.ops - a, stream.got - b) if stream is not None else ())


WHAT = ('steps', 'accesses to the stream', 'bytes read')
SLACK = (120, 12, 200)


def compare(ctx, small, large, factor, what):
    """ The larger case may take no more than `factor` times as much. """
    for name, a, b, more in zip(WHAT, small, large, SLACK):
        require(b <= a * factor * 1.1 + more, '%s: %d %s, then %d for %s', what, a, name, b, 'as much again' if factor == 1 else '%d times as much' % factor)
    ctx.add('evaluations')
    ctx.add('steps', large[0])
    ctx.add('distinct_nontrivial', large[0] > small[0])


# ---------------------------------------------------------------- reading

def op_both(el):
    """ Its children's lengths and sizes, in between. """
    for c in el:
        if isinstance(c, core.MasterElement):
            len(c), c.size, c.value, len(c), len(c.value), c[0:1]


def op_hold(el):
    v = list(el)
    for c in v:
        c.value, c.value, c == v[0], repr(c)
    for c in v:
        c.gc(True)


def op_values(el):
    for c in el.value:
        c.value, c.getRaw()


def op_hex(el):
    util.toXml(el, binary_codec='hex', void_codec='hex', offsets=False)


def op_printhex(el):
    util.pprint(el, out=io.StringIO(), binary_codec='hex', void_codec='base64')


def op_interleaved(el):
    """ Two iterations at a time. """
    for a, b in itertools.zip_longest(el, util.flatiter(el)):
        a is b


READ = [f for f in c31.OPS if f not in (c31.op_index, c31.op_part)] + [op_both, op_hold, op_values, op_hex, op_printhex, op_interleaved]
PART = {
    'first': lambda el: list(itertools.islice(iter(el), 3)),
    'flat': lambda el: list(itertools.islice(util.flatiter(el), 4)),
    'index': lambda el: (el[0], el[2]) if isinstance(el, core.Document) else None,
    'parts': c31.op_part,
    'value': lambda el: list(itertools.islice(el.value, 3)) if isinstance(el, core.Document) else None,
    'pairs': lambda el: list(itertools.islice(zip(el, util.flatiter(el, 1)), 3)),
    'flat in pieces': lambda el: [list(itertools.islice(util.flatiter(el, d), 2)) for d in (0, 1, 2, -1)],
}


def built(place, unit, times):
    data = c31.document(place, unit, times)
    stream = Tally(data)
    return stream, data


def opened(stream, place):
    io.BytesIO.seek(stream, 0)
    doc = obs.vs().load(stream, headers=True)
    return doc if place == 'root' else next(iter(doc))


def shards(tier):
    return [(p, i) for p in PLACES for i in range(12)] + [('pass', i) for i in range(4)] + [('write', i) for i in range(8)] + [('deep', 0), ('codec', 0), ('schema', 0), ('long', 0)]


def units(tier):
    for n in (1, 2):
        yield from M.forests(n, MASTERS, LEAVES)
    if tier == 'thorough':
        yield from M.forests(3, MASTERS[:2], LEAVES[:1] + LEAVES[6:9] + LEAVES[11:12])


def cases(shard, tier):
    kind, i = shard
    if kind in PLACES:
        for u in itertools.islice(units(tier), i, None, 12):
            if kind == 'unknown' and not all(s[0] in ('Grp', 'Sub', 'U', 'Void', 'PM', 'PB', 'LU') for s in u):
                continue
            yield ('u', kind, u)
    elif kind == 'pass':
        for u in itertools.islice(units('quick'), i, None, 4):
            yield ('pass', u)
    elif kind == 'write':
        for u in itertools.islice(units('quick'), i, None, 8):
            yield ('write', u)
    elif kind == 'deep':
        for chain, op in itertools.product(('Grp', 'Sub', 'Grp Sub'), range(len(READ))):
            for width in (None, 8, -1):
                yield ('deep', chain, width, op)
        for chain in ('Grp', 'Sub', 'Grp Sub'):
            yield ('deepwrite', chain)
    elif kind == 'codec':
        for k in range(len(CODECS)):
            yield ('codec', k)
    elif kind == 'schema':
        for form in SCHEMATA:
            yield ('schema', form)
        for k in ('list', 'search', 'ids'):
            yield (k,)
    else:
        for name in ('B', 'S', 'Z', 'PB', 'PZ', 'Void', 0x4FFE, 'CRC-32', 'Grp', 'EM', 'PM'):
            yield ('long', name)


def evaluate(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])


def do_u(ctx, place, unit):
    counts = (12, 48) if ctx.tier == 'quick' or len(list(c31.flat(unit))) > 1 else (12, 48, 192)
    docs_ = [built(place, unit, n) for n in counts]
    for fn in READ:
        got = []
        for stream, data in docs_:
            el = opened(stream, place)
            got.append(measure(fn, stream, el))
        for a, b in zip(got, got[1:]):
            compare(ctx, a, b, 4, '%s of %s' % (fn.__name__[3:], place))
    # what concerns a fixed number of elements
    got = [measure(opened, s, s, 'root') for s, _ in docs_]
    # (the size of the first element is found when loading)
    compare(ctx, got[0], got[-1], counts[-1] // counts[0] if place == 'unknown' else 1, 'loading the document')
    for name, fn in PART.items():
        if place == 'unknown':
            continue
        got = []
        for stream, data in docs_:
            el = opened(stream, place)
            got.append(measure(fn, stream, el))
        compare(ctx, got[0], got[-1], 1, '%s elements of %s' % (name, place))
    # nothing is read in order to forget it
    if place == 'sized':
        got = [measure(lambda e: e.gc(True), s, opened(s, place)) for s, _ in docs_]
        compare(ctx, got[0], got[-1], 1, 'clearing what was never read')
    # asked once more
    again = {'len': len, 'size': lambda e: e.size}
    if place != 'root':
        again.update(value=lambda e: e.value, last=lambda e: e[-1], iterations=lambda e: (e.value, e.size, len(e), e.gc()) and None)
        again.pop('iterations')
    for name, fn in again.items():
        got = []
        for stream, data in docs_:
            el = opened(stream, place)
            fn(el)
            got.append(measure(fn, stream, el))
        compare(ctx, got[0], got[-1], 1, '%s of %s, once more' % (name, place))
    # the last of them
    got = {}
    for stream, data in docs_:
        el = opened(stream, place)
        last = None
        for last in el:
            pass
        for name, fn in (('value of a leaf', lambda e: e.value if not isinstance(e, core.MasterElement) else None), ('raw data', lambda e: (e.getRaw(), e.getRawValue())), ('length', lambda e: len(e) if hasattr(e, '__len__') else 0),
                         ('repr and size', lambda e: (repr(e), e.size)), ('children', list if isinstance(last, core.MasterElement) else repr), ('equality', lambda e: (e == e, e == el)), ('clearing', lambda e: e.gc(True))):
            got.setdefault(name, []).append(measure(fn, stream, last))
    for name, g in got.items():
        compare(ctx, g[0], g[-1], 1, '%s of the last element of %s' % (name, place))
    if not any(isinstance(s[0], int) for s in c31.flat(unit)):
        got = [(steps(obs.vs().verify, data),) for _, data in docs_]
        for a, b in zip(got, got[1:]):
            compare(ctx, a, b, 4, 'verification of %s' % place)


def do_pass(ctx, unit):
    """ Containers of known size, whatever they contain. """
    got = {}
    for n in (12, 48):
        stream = Tally(M.build([('U', b'\1', None), ('Grp', unit * n, None), ('Seg', [('Grp', unit * n, 8)], 4), ('U', b'\2', None)])[0])
        doc = obs.vs().load(stream, headers=True)
        for name, fn in (('iterating', list), ('counting', len), ('flat to depth 1', lambda d: list(util.flatiter(d, 1))), ('by index', lambda d: d[3].value), ('by value', lambda d: [e.size for e in d.value])):
            got.setdefault(name, []).append(measure(fn, stream, doc))
        seg = doc[2]
        got.setdefault('iterating below', []).append(measure(list, stream, seg))
        got.setdefault('the value below', []).append(measure(lambda e: (len(e), e.value, e[0].size), stream, seg))
    for name, g in got.items():
        g[:] = [x[:2] for x in g]
        compare(ctx, g[0], g[1], 1, '%s, passing over containers' % name)


# ---------------------------------------------------------------- writing

def plain(nodes):
    return [(n.name, (plain(n.children) or {}) if n.children is not None else n.value) for n in nodes]


def do_write(ctx, unit):
    known = not any(isinstance(s[0], int) for s in c31.flat(unit))
    got = {}
    for n in (12, 48):
        for place in ('root', 'sized'):
            data, nodes = M.build(unit * n if place == 'root' else [('Grp', unit * n, None)])
            if known:
                pairs = plain(nodes)
                got.setdefault('encoding pairs at ' + place, []).append((steps(obs.vs().encodes, pairs),))
                got.setdefault('encoding with header at ' + place, []).append((steps(lambda: obs.vs().encode(io.BytesIO(), pairs, headers=True)),))
                if len(unit) == 1 and obs.vs()[unit[0][0]].multiple:
                    vals = [v for _, v in plain(nodes if place == 'root' else nodes[0].children)]
                    d = {unit[0][0]: vals}
                    got.setdefault('encoding a list at ' + place, []).append((steps(obs.vs().encodes, d if place == 'root' else {'Grp': d}),))
                    got.setdefault('encoding several at ' + place, []).append((steps(obs.vs()[unit[0][0]].encode, vals),))
            for opts in (dict(), dict(sizes=False), dict(binary_codec='hex', offsets=False)):
                x = util.toXml(obs.vs().load(io.BytesIO(data)), **opts)
                for sl in (None, 8):
                    got.setdefault('conversion of %r with sizeLength %r at %s' % (opts, sl, place), []).append((steps(util.xml2ebml, x, io.BytesIO(), obs.vs(), sl),))
            text = ET.tostring(x)
            got.setdefault('loadXml at ' + place, []).append((steps(util.loadXml, io.BytesIO(text), obs.vs(), ':memory:'),))
    for name, (a, b) in got.items():
        compare(ctx, a, b, 4, name)


# ---------------------------------------------------------------- nesting

def nested(chain, depth, width):
    names = chain.split()
    specs = [('U', b'\1', None)]
    for i in reversed(range(depth)):
        specs = [(names[i % len(names)], specs, width)]
    return specs


def do_deep(ctx, chain, width, op):
    fn = READ[op]
    top = 64 if ctx.tier == 'quick' else 200 if width != -1 else 100
    got = []
    for depth in (top // 4, top):
        stream = Tally(M.build(nested(chain, depth, width))[0])
        doc = obs.vs().load(stream, headers=True)
        got.append(measure(fn, stream, doc))
    # printing takes the value of each container and goes through it again, and unknown sizes are found from the inside
    square = width == -1 or 'flat' in fn.__name__ or fn is op_interleaved
    # (longer containers have longer sizes, which take more reading)
    for i, (a, b) in enumerate(zip(*got)):
        if i == 2 and fn is c31.op_raw:
            continue            # the raw data of each are within that of its parent
        compare_one(ctx, i, a, b, 16 if square else 6 if width is None else 4, '%s of %s nested (width %r)' % (fn.__name__[3:], chain, width))
    ctx.add('evaluations')


def compare_one(ctx, i, a, b, factor, what):
    require(b <= a * factor * 1.1 + SLACK[i], '%s: %d %s, then %d at four times the depth', what, a, WHAT[i], b)
    ctx.add('distinct_nontrivial', i == 0 and b > a)


def do_deepwrite(ctx, chain):
    top = 64 if ctx.tier == 'quick' else 200
    got = {}
    for depth in (top // 4, top):
        data, nodes = M.build(nested(chain, depth, None))
        got.setdefault('encoding', []).append((steps(obs.vs().encodes, plain(nodes)),))
        x = util.toXml(obs.vs().load(io.BytesIO(data)))
        for sl in (None, 8):
            got.setdefault('conversion %r' % sl, []).append((steps(util.xml2ebml, x, io.BytesIO(), obs.vs(), sl),))
        got.setdefault('verification', []).append((steps(obs.vs().verify, data),))
    for name, (a, b) in got.items():
        compare(ctx, a, b, 6, '%s of %s nested' % (name, chain))


# ---------------------------------------------------------------- the rest

CODECS = [lambda: xml_codecs.Base64Codec()] + [lambda c=c: xml_codecs.Base64Codec(cols=c) for c in (0, None, 1, 4, 77)] + [
    lambda w=w, c=c, o=o: xml_codecs.HexCodec(width=w, cols=c, offsets=o) for w in (1, 2, 8) for c in (0, 1, 16, 32) for o in (True, False)]


def do_codec(ctx, k):
    c = CODECS[k]()
    sizes = (1024, 4096, 16384) if ctx.tier == 'quick' else (4096, 16384, 65536)
    got = {}
    for n in sizes:
        data = bytes(i * 7 & 255 for i in range(n))
        text = c.encode(data, indent='  ')
        got.setdefault('encoding', []).append((steps(lambda: c.encode(data, indent='  ', offset=n)),))
        got.setdefault('encoding to a stream', []).append((steps(lambda: c.encode(data, stream=io.StringIO())),))
        got.setdefault('decoding', []).append((steps(c.decode, text),))
        got.setdefault('decoding to a stream', []).append((steps(lambda: c.decode(text, stream=io.BytesIO())),))
    for name, g in got.items():
        for a, b in zip(g, g[1:]):
            compare(ctx, a, b, 4, '%s with codec %d' % (name, k))


def legacy(n):
    return '<table>%s</table>' % ''.join('<element name="E%d" id="0x%X" type="%s" level="%d"/>' % (i, 0x4100 + i, ('master', 'uinteger', 'binary')[i % 3], i % 4) for i in range(n))


def flat_schema(n):
    return '<Schema>%s</Schema>' % ''.join('<%sElement name="E%d" id="0x%X"/>' % (('Master', 'UInteger', 'Binary')[i % 3], i, 0x4100 + i) for i in range(n))


def children(n):
    return '<Schema><MasterElement name="M" id="0xA0">%s</MasterElement></Schema>' % ''.join('<%sElement name="E%d" id="0x%X" global="%d"/>' % (('Master', 'UInteger', 'Binary')[i % 3], i, 0x4100 + i, i & 1) for i in range(n))


def again(n):
    return '<Schema>%s</Schema>' % ''.join('<MasterElement name="M%d" id="0x%X"><UnicodeElement name="Z"%s/></MasterElement>' % (i, 0x4100 + i, '' if i else ' id="0xA0"') for i in range(n))


def deeper(n):
    return '<Schema>%s%s</Schema>' % (''.join('<MasterElement name="M%d" id="0x%X">' % (i, 0x4100 + i) for i in range(n)), '</MasterElement>' * n)


SCHEMATA = {'legacy': legacy, 'flat': flat_schema, 'children': children, 'again': again, 'deeper': deeper}


def do_schema(ctx, form):
    make = SCHEMATA[form]
    got = {}
    for n in (24, 96):
        text = make(n)
        got.setdefault('defining', []).append((steps(core.Schema, io.StringIO(text)),))
        s, t = core.Schema(io.StringIO(text), name='one'), core.Schema(io.StringIO(text), name='two')
        got.setdefault('comparing', []).append((steps(lambda: (s == t, s == s)),))
        ids = sorted(s.elements)
        got.setdefault('looking up', []).append((steps(lambda: [(s[k], s.get(s[k].name), k in s) for k in ids]),))
        data = b''.join(k.to_bytes(2 if k > 255 else 1, 'big') + b'\x80' for k in ids)
        got.setdefault('reading all', []).append((steps(lambda: list(s.loads(data))),))
        # one definition added, one element read: the same in every schema
        got.setdefault('=adding', []).append((steps(lambda: s.addElement(0x5FF0, 'Late', core.UIntegerElement, {})),))
        got.setdefault('=reading one', []).append((steps(lambda: [e.value for e in s.loads(data[-3:] + b'\x5f\xf0\x81\x05')]),))
        # containers of unknown size, with and without anything in them
        for m in [k for k in ids if issubclass(s[k], core.MasterElement)][:1]:
            kids = sorted(s[m].children or ())[:2]
            for n, tail in itertools.product((0, 1), (b'', b'\x5f\xf0\x81\x05', b'\x5f\xf1\x80')):
                data = m.to_bytes(2 if m > 255 else 1, 'big') + b'\xff' + b''.join(k.to_bytes(2 if k > 255 else 1, 'big') + b'\x80' for k in kids) * n + tail
                got.setdefault('=unknown size %d %d' % (n, len(tail)), []).append((steps(lambda: [(e.size, len(list(e))) for e in s.loads(data) if e.id == m]),))
        got.setdefault('=encoding one', []).append((steps(lambda: s.encodes({'Late': 5})),))
        name = 'c35-%s-%d-%d' % (form, n, os.getpid())
        core.parseSchema(text, name=name)
        got.setdefault('=loading again', []).append((steps(lambda: core.parseSchema(text, name=name)),))
    for name, (a, b) in got.items():
        compare(ctx, a, b, 1 if name[0] == '=' else 4, '%s, %s schema' % (name, form))


def do_list(ctx):
    """ Listing directories of schemata. """
    got = {}
    for n in (12, 48):
        d = os.path.join(scratch(), 'list%d-%d' % (n, os.getpid()))
        os.makedirs(d)
        for i in range(n):
            with open(d + '/s%d.xml' % i, 'w') as f:
                f.write(flat_schema(2))
        got.setdefault('listing files', []).append((steps(core.listSchemata, d),))
        got.setdefault('listing directories', []).append((steps(core.listSchemata, *[d + '/.' * (i + 1) for i in range(n // 4)]),))
        got.setdefault('=finding one', []).append((steps(lambda: core.loadSchema('s5.xml', paths=[d])),))
        got.setdefault('=finding it again', []).append((steps(lambda: core.loadSchema('s5.xml', paths=[d])),))
    for name, (a, b) in got.items():
        compare(ctx, a, b, 1 if name[0] == '=' else 16 if name == 'listing directories' else 4, name)


def do_search(ctx):
    """ Search paths of many directories. """
    got = []
    root = os.path.join(scratch(), 'search-%d' % os.getpid())
    for n in (12, 48):
        ds = [root + '/%d-%d' % (n, i) for i in range(n)]
        for d in ds:
            os.makedirs(d)
        with open(ds[-1] + '/found.xml', 'w') as f:
            f.write(flat_schema(2))
        got.append((steps(lambda: core.loadSchema('found.xml', paths=ds)),))
    compare(ctx, got[0], got[1], 4, 'searching')


def do_ids(ctx):
    s = core.Schema(io.StringIO(flat_schema(10)))
    for cls in 'bcd':
        got = [(steps(lambda: util.createID(s, cls, count=n)),) for n in (12, 48, 192)]
        for a, b in zip(got, got[1:]):
            compare(ctx, a, b, 4, 'finding IDs of class ' + cls)
        got = [(steps(lambda: util.createID(s, cls, count=3, exclude=range(n))),) for n in (12, 192)]
        compare(ctx, got[0], got[1], 1, 'finding IDs of class %s with others excluded' % cls)


def do_long(ctx, name):
    """ An element after and within much else. """
    got = {}
    kid = M.VS.byName[name].kind == 'master' if isinstance(name, str) else False
    one = [('U', b'\1', None)] if kid and name != 'EM' else [] if kid else b'abc'
    for n in (1, 4):
        filler = ('B', b'\xa0\x81\x81' * (20000 * n), 8)
        for place in ('root', 'Grp'):
            body = [('U', b'\1', None), filler, (name, one, None), filler]
            stream = Tally(M.build(body if place == 'root' else [('Grp', body, 8)])[0])
            doc = obs.vs().load(stream, headers=True)
            el = doc if place == 'root' else doc[0]
            for what, fn in (('iterating', list), ('the third', lambda e: list(itertools.islice(iter(e), 3))), ('its raw data', lambda e: list(itertools.islice(iter(e), 3))[2].getRaw()),
                             ('its value', lambda e: list(itertools.islice(iter(e), 3))[2].value), ('all flat', lambda e: list(util.flatiter(e))), ('length', len)):
                got.setdefault('%s at %s' % (what, place), []).append(measure(fn, stream, el))
    for k, (a, b) in got.items():
        compare(ctx, a, b, 1, '%s: %s' % (name, k))


def conclude(n, sets, tier):
    if n.get('steps', 0) < 1000 * n.get('evaluations', 0) / 10:
        yield ('few',), 'only %r steps were counted in %r measurements' % (n.get('steps'), n.get('evaluations'))
