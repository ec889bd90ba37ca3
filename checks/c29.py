""" C29: payloads are read only when needed. """
import io
import itertools
import re
from mc.base import require
from mc import model as M, obs, docs
from ebmlite import core, util

ID = 'C29'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all documents of a bounded grammar x pre-reading flags x operations, with every stream operation recorded and checked against the builder'
RULE = ('Every document of the grammar is read from a stream that records every byte read, through a schema with the default pre-reading flags and with all, none or half of the elements marked. '
        'Iterating, indexing and counting the document and every container, attributes, values and raw bytes each may only read the bytes the builder assigns to headers, pre-read values or '
        'the value asked for; values pre-read or cached are fetched with the stream refusing everything. Non-trivial: documents with payload that is not pre-read.')
BOUNDS = dict(quick='forests of up to 2 elements over 22 leaves and 7 containers, of 3 over 22 and 7, of 5 over 4 and 2; 4 sets of flags (rotating for 3 and more); 2 header modes; payloads of 44 sizes from 15 bytes to 1 MiB, 1000 children; flat iteration and printing without values',
              thorough='forests of up to 2 elements over 22 leaves and 7 containers, of 3 over 22 and 7, of 4 over 8 and 5, of 6 over 4 and 2; 4 sets of flags (rotating for 4 and more); 2 header modes; payloads of 44 sizes from 15 bytes to 1 MiB, 5000 children')

LEAVES = [(n, (p + b'0123456789')[:10] if n in ('S', 'Z', 'B', 'Void', 0x4FFE, 'PB') else p, w) for n, p, w in docs.LEAVES]
MASTERS = docs.MASTERS + [('Cl', -1), ('Seg', -8), ('Grp', -2)]
SMALL = [s for s in LEAVES if s[0] in ('U', 'F', 'S', 'B', 'Void', 0x4FFE, 'PB', 'D')][:8]
LARGE = ['S', 'Z', 'B', 'PB', 'LB', 'PZ', 0x4FFE, 'Void', 'CRC-32']
TINY = [SMALL[0], SMALL[2], ('B', b'0123456789', None), (0x4FFE, b'u', 2)]


def variants():
    """ Schemata with other pre-reading flags. """
    xml = M.VS_XML
    none = re.sub(r' precache="."', '', xml)
    out = [xml]
    for pick in (lambda i: '0', lambda i: '1', lambda i: '01'[i % 2]):
        ids = {}

        def mark(m):
            if m.group(1) not in ids:
                ids[m.group(1)] = pick(len(ids))
            return m.group(0) + ' precache="%s"' % ids[m.group(1)]
        out.append(re.sub(r'name="[\w-]+" id="(\w+)"', mark, none))
    return out


_v = None


def schemata():
    global _v
    if _v is None:
        _v = [(core.parseSchema(x), M.RefSchema(x)) for x in variants()]
    return _v


class Recorder(io.BytesIO):
    """ Records what is read; `off` makes every operation an error. """
    off = False
    log = None
    ops = 0

    def _do(self):
        self.ops += 1
        if self.off:
            raise AssertionError('the stream is used')

    def read(self, n=-1):
        self._do()
        pos = io.BytesIO.tell(self)
        data = io.BytesIO.read(self, n)
        if self.log is not None and data:
            self.log.append((pos, pos + len(data)))
        return data

    def seek(self, *a):
        self._do()
        return io.BytesIO.seek(self, *a)

    def tell(self):
        self._do()
        return io.BytesIO.tell(self)

    def _other(self, *a):
        raise AssertionError('the stream is read by other means')
    readline = readlines = readinto = read1 = readall = getbuffer = __next__ = _other


class Plain:
    """ The same with only the required methods. """
    def __init__(self, data):
        self.f = Recorder(data)
        self.read, self.seek, self.tell = self.f.read, self.f.seek, self.f.tell


def span(start, end, into):
    into.update(range(start, end))


def sizing(n, byoff, into):
    """ What finding the end of a container of unknown size may read. """
    if not n.unknown:
        return
    for c in n.children:
        span(c.off, c.poff, into)
        sizing(c, byoff, into)
    after = byoff.get(n.end)
    if after is not None:
        span(after.off, after.poff, into)


def listing(nodes, byoff, into):
    """ What listing these elements may read. """
    for n in nodes:
        span(n.off, n.poff, into)
        sizing(n, byoff, into)
        if n.d is not None and n.d.precache:
            if n.children is not None:
                listing(n.children, byoff, into)
            else:
                span(n.poff, n.end, into)


class Watch:
    def __init__(self, rec, allowed, what):
        self.rec, self.allowed, self.what = rec, allowed, what

    def __enter__(self):
        self.rec.log = []

    def __exit__(self, t, e, tb):
        log, self.rec.log = self.rec.log, None
        if t is None:
            for a, b in log:
                for i in range(a, b):
                    require(i in self.allowed, '%s read the byte at %d (in %r)', self.what, i, (a, b))


def quiet(rec, fn, what):
    rec.off = True
    try:
        return fn()
    except AssertionError as e:
        require(False, '%s: %s', what, e)
    finally:
        rec.off = False


def shards(tier):
    return [(k, i) for k in ('full', 'mid', 'tiny') for i in range(16)] + [('head', 0)] + [('large', i) for i in range(9)]


def cases(shard, tier):
    kind, i = shard
    deep = tier == 'thorough'
    if kind == 'full':
        it = itertools.chain.from_iterable(M.forests(n, MASTERS, LEAVES) for n in range(3))
        if deep:
            it = itertools.chain(it, M.forests(3, MASTERS, LEAVES))
        flags = range(4)
    elif kind == 'mid':
        it = M.forests(4, MASTERS[:3] + MASTERS[4:6], SMALL) if deep else M.forests(3, MASTERS, LEAVES)
        flags = None
    elif kind == 'tiny':
        it = M.forests(6 if deep else 5, MASTERS[:2], TINY)
        flags = None
    elif kind == 'large':
        # Payloads around every power of two up to 64 KiB, and one of a megabyte and more
        for n in sorted({m for k in range(4, 17) for m in (2 ** k - 1, 2 ** k, 2 ** k + 1)} | {1000, 5000, 10000, 100000, 1 << 20}):
            for name in LARGE[i:i + 1] if n < 1 << 20 or deep else ('Z',)[i:]:
                for f in range(4):
                    if n < 1 << 14 or f == 0:
                        yield ([('Large', [(name, n), ('U', b'\5', None)])], f, True)
        # and many children
        for n in ((100, 1000) + ((5000,) if deep else ())) * (i == 8):
            for w in (None, 8, -1):
                for f in range(4):
                    yield ([('Seg', [('U', b'\5', None), ('B', b'0123456789', None)] * (n // 2), w)], f, True)
        return
    else:
        for f in range(4):
            for a in LEAVES:
                for h in (True, False):
                    yield ([docs.HEADER, a, ('Seg', [a], -1)], f, h)
        return
    for j, specs in enumerate(it):
        if j % 16 == i:
            for f in flags or [j // 16 % 4]:
                yield (specs, f, True)


def large(spec):
    """ A case of large payloads names their sizes only. """
    if spec[0] != 'Large':
        return [spec]
    (name, n), after = spec[1]
    return [(name, (b'0123456789abcdef' * (n // 16 + 1))[:n], None), after, ('Cl', [(name, (b'xyz' * (n // 3 + 1))[:n], None), after], 8)]


def evaluate(case, ctx):
    specs, flags, headers = case
    schema, ref = schemata()[flags]
    specs = [x for s in specs for x in large(s)]
    data, built = M.build(specs, ref)
    nodes, _ = M.parse(data, ref)
    if [(n.off, n.end) for n in M.walk(nodes)] != [(n.off, n.end) for n in M.walk(built)]:
        return              # what follows a container of unknown size would belong to it
    ctx.add('evaluations')
    if any(n.children is None and n.size and not (n.d and n.d.precache) for n in M.walk(nodes)):
        ctx.add('distinct_nontrivial')
    byoff = {}
    for n in M.walk(nodes):
        byoff[n.off] = n
    first = set()
    listing(nodes[:1], byoff, first)
    if nodes and nodes[0].name == 'EBML':
        span(0, nodes[0].end, first)

    def load(plain=False):
        src = Plain(data) if plain else Recorder(data)
        rec = src.f if plain else src
        with Watch(rec, first, 'loading'):
            doc = schema.load(src, headers=headers)
        return doc, rec
    top = nodes if headers else [n for n in nodes if n.name != 'EBML']
    may = set()
    listing(top, byoff, may)
    for plain in (False, True):
        doc, rec = load(plain)
        with Watch(rec, may, 'iterating'):
            els = list(doc)
        with Watch(rec, may, 'counting'):
            n = len(doc)
        require(n == len(top) == len(els), 'the document has %d elements, not %d', n, len(top))
        with Watch(rec, may, 'iterating again'):
            els = list(doc)
        explore(els, top, byoff, rec, ref, '')
    for i in range(len(top)):
        doc, rec = load()
        part = set()
        listing(top[:i + 1], byoff, part)
        with Watch(rec, part, 'doc[%d]' % i):
            el = doc[i]
        require(el.offset == top[i].off, 'doc[%d] is at %d', i, el.offset)
        if el.precache and not isinstance(el, core.MasterElement):
            quiet(rec, lambda: el.value, 'the pre-read value of doc[%d]' % i)
    doc, rec = load()
    it = iter(doc)
    for i in range(len(top)):
        part = set()
        listing(top[i:i + 1], byoff, part)
        with Watch(rec, part, 'step %d of iterating' % i):
            next(it)
    doc, rec = load()
    with Watch(rec, may, 'counting first'):
        len(doc)
    deep = set(may)
    for n in M.walk(top):
        if n.children is not None:
            listing(n.children, byoff, deep)
            sizing(n, byoff, deep)
    doc, rec = load()
    with Watch(rec, deep, 'flat iteration'):
        for el in util.flatiter(doc):
            pass
    doc, rec = load()
    with Watch(rec, deep, 'printing without values'):
        util.pprint(doc, values=False, out=io.StringIO())


def explore(els, nodes, byoff, rec, ref, where):
    for el, n in zip(els, nodes):
        what = '%s/%s at %d' % (where, n.name, n.off)
        pre = n.d is not None and n.d.precache
        require(bool(el.precache) == pre, '%s: precache is %r', what, el.precache)
        if not n.unknown:
            quiet(rec, lambda: (el.id, el.name, el.offset, el.size, el.payloadOffset, el.dtype, repr(el), el.schema, el.multiple, el.mandatory), 'attributes of ' + what)
        else:
            may = set()
            sizing(n, byoff, may)
            with Watch(rec, may, 'size of ' + what):
                el.size
            quiet(rec, lambda: el.size, 'size, once known, of ' + what)
        if n.children is None:
            own = set(range(n.poff, n.end))
            if pre:
                v = quiet(rec, lambda: el.value, 'the pre-read value of ' + what)
            else:
                with Watch(rec, own, 'value of ' + what):
                    v = el.value
            require(M.same(v, n.value), '%s: value %r, expected %r', what, v, n.value)
            w = quiet(rec, lambda: el.value, 'the cached value of ' + what)
            require(M.same(v, w), '%s: value %r became %r', what, v, w)
            quiet(rec, lambda: el.dump(), 'dumping the cached ' + what)
            el.gc()
            with Watch(rec, own, 'value after clearing of ' + what):
                v = el.value
            require(M.same(v, n.value), '%s: value %r, expected %r', what, v, n.value)
            if hasattr(type(el), '__len__'):
                quiet(rec, lambda: len(el), 'length of ' + what)
            with Watch(rec, own, 'raw value of ' + what):
                el.getRawValue()
            with Watch(rec, set(range(n.off, n.end)), 'raw bytes of ' + what):
                el.getRaw()
            continue
        may = set()
        listing(n.children, byoff, may)
        sizing(n, byoff, may)
        if pre:
            quiet(rec, lambda: (len(el), el.value, el[:]), 'the pre-read contents of ' + what)
            el.gc()
        with Watch(rec, may, 'counting ' + what):
            k = len(el)
        require(k == len(n.children), '%s: length %d, expected %d', what, k, len(n.children))
        quiet(rec, lambda: len(el), 'the length, once known, of ' + what)
        with Watch(rec, may, 'iterating ' + what):
            kids = list(el)
        with Watch(rec, may, 'indexing ' + what):
            for i in range(k):
                el[i], el[i - k]
            el[:], el[::-1]
        quiet(rec, lambda: [el[i] for i in range(k)] + el.value + el[:], 'the cached contents of ' + what)
        with Watch(rec, may, 'iterating again ' + what):
            kids = list(el)
        require(len(kids) == k, '%s: %d children', what, len(kids))
        explore(kids, n.children, byoff, rec, ref, what)
