""" C20: a loaded document presents its header, roots and stream consistently. """
import io
import itertools
import os
import pathlib
from mc.base import Viol, require, scratch
from mc import model as M, obs, docs, streams
from ebmlite import core

ID = 'C20'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all documents of a header variant and up to 3 roots, all ways of loading them and all indices, against a builder'
RULE = ('All documents made of one of 14 header variants (or none) and up to n root elements, loaded in every way (Schema.load, loads, call, Document; '
        'headers on, off and default; from every kind of stream, offset or filename). Information, type, version, roots, length and every index are '
        'compared with the builder, before and after other uses; then the document is closed in every way and the stream looked at.')
BOUNDS = dict(quick='15 headers x forests of up to 3 elements of 12 labels x 7 loads, 25 kinds of stream x 3 offsets x 4 ways of closing, 8 kinds of exception, 5 sizes given',
              thorough='15 headers x forests of up to 4 elements of 12 labels x 7 loads, 25 kinds of stream x 3 offsets x 4 ways of closing, 8 kinds of exception, 5 sizes given x all documents of up to 2 elements')

E = 'EBML'
T = ('DocType', b'vtest', None)
V = ('DocTypeVersion', b'\x03', None)
HEADERS = {
    'none': None, 'full': docs.HEADER, 'empty': (E, [], None), 'wide': (E, [T, V], 8), 'type': (E, [T], 1), 'version': (E, [V], 2),
    'void': (E, [('Void', b'\xff\xa0', None), T, V], None), 'unknown': (E, [T, (0x4FFE, b'\x81\x81', None)], 3), 'nul': (E, [('DocType', b'vt\0\0\0', None), V], None),
    'other': (E, [('DocType', b'other', None), ('DocTypeVersion', b'\x01\x00', None)], 4), 'emptyvalues': (E, [('DocType', b'', None), ('DocTypeVersion', b'', None)], None),
    'last': (E, [('EBMLVersion', b'\1', None), ('EBMLReadVersion', b'\1', None), ('EBMLMaxIDLength', b'\4', None), ('EBMLMaxSizeLength', b'\x08', None), V, T], None),
    'big': (E, [T, ('Void', bytes(300), None), V], None), 'crc': (E, [('CRC-32', b'\1\2\3\4', None), T], None),
    'unsized': (E, [T, V], -8),
}
ROOTS = [('U', b'\x05', None), ('S', b'hi\0x', None), (0x4FFE, b'u\xa0\x81', None), ('Void', b'\xff\xa0', None), ('D', docs.DATE, None)]
MORE = ROOTS + [('B', b'\x1a\x45\xdf\xa3\x80', 3), ('Grp', [], None), docs.HEADER, ('PM', [('U', b'\1', None), ('B', b'xy', None)], None), ('PB', b'pre', None)]
WAYS = ['load', 'loadT', 'loadF', 'loads', 'call', 'docT', 'docF']
CLOSE = ['close', 'with', 'raise', 'twice']
RAISE = (ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, OSError, AssertionError)


def grouped(nodes):
    out = {}
    for nd in nodes:
        v = grouped(nd.children) if nd.children is not None else nd.value
        if nd.d is not None and nd.d.multiple:
            out.setdefault(nd.name, []).append(v)
        else:
            out[nd.name] = v
    return out


def open_way(way, data, start=0):
    st = io.BytesIO(data)
    st.seek(start)
    s = obs.vs()
    if way == 'load':
        return s.load(st), False
    if way == 'loadT':
        return s.load(st, headers=True), True
    if way == 'loadF':
        return s.load(st, headers=False), False
    if way == 'loads':
        return s.loads(data), False
    if way == 'call':
        return s(st), False
    if way == 'docT':
        return s.document(st), True
    return s.document(st, headers=False), False


def refused(f, kinds, what):
    try:
        r = f()
    except kinds:
        return
    except Exception as e:
        raise Viol('%s raised %r' % (what, e))
    raise Viol('%s gave %r' % (what, r))


def look(doc, nodes, data, header, withheader, order, shake=None):
    """ All of a document's faces, in one of several orders. shake: called before everything, moves the stream. """
    shake = shake or (lambda: None)
    hd = nodes[:1] if header else []
    roots = nodes if withheader else nodes[len(hd):]
    n = len(roots)

    def info():
        want = grouped(hd[0].children) if hd else {}
        require(doc.info == want, 'the information is %r, the header has %r', doc.info, want)
        require(all(M.same(doc.info[k], want[k]) for k in want if not isinstance(want[k], dict)), 'the information is %r, the header has %r', doc.info, want)
        require(doc.type == want.get('DocType') and doc.version == want.get('DocTypeVersion'), 'type %r, version %r, header %r', doc.type, doc.version, want)

    def roots_():
        obs.check_all(doc, roots, data, schema=obs.vs())

    def value():
        obs.check_all(doc.value, roots, data, deep=False, raw=False, values=False)

    def length():
        require(len(doc) == n, 'the length is %d, there are %d roots', len(doc), n)

    def index():
        for i in range(n):
            shake()
            obs.check_el(doc[i], roots[i], data, raw=False)
        # every index after every other
        for i, j in itertools.product(range(n), repeat=2):
            shake()
            obs.check_el(doc[i], roots[i], data, raw=False, deep=False)
            shake()
            obs.check_el(doc[j], roots[j], data, raw=False, deep=False)
        for i in (n, n + 1, n + 1000, 1 << 40):
            refused(lambda: doc[i], IndexError, 'doc[%d] of %d' % (i, n))

    def bad():
        for i in (-1, -n - 1, slice(0, 1), slice(None)):
            refused(lambda: doc[i], (IndexError, TypeError), 'doc[%r]' % (i,))
        for i in ('0', 0.0, None, 'EBML', b'0', (0,)):
            refused(lambda: doc[i], TypeError, 'doc[%r]' % (i,))

    steps = [info, roots_, length, index, bad, value]
    for k in order:
        shake()
        steps[k]()


def shards(tier):
    return [('d', h, i) for h in HEADERS for i in range(2)] + [('st', k) for k in streams.KINDS] + [('name', None)]


def forests(tier, k=None):
    yield from docs.extremes()
    n = 3 if tier == 'quick' else 4
    lv = MORE
    for size in range(n + 1):
        yield from M.forests(size, [('Grp', None), ('Seg', 8)], lv)


def cases(shard, tier):
    if shard[0] == 'd':
        for specs in itertools.islice(forests(tier), shard[2], None, 2):
            yield ('d', shard[1], specs)
    elif shard[0] == 'st':
        small = [[], [ROOTS[0]], [ROOTS[2], ('Grp', ROOTS, None)]] if tier == 'quick' else list(itertools.chain.from_iterable(M.forests(i, [('Grp', None)], MORE) for i in range(3)))
        for h in ('none', 'full', 'empty', 'unsized', 'big'):
            for specs in small:
                for start in (0, 1, 300):
                    if start and shard[1] in ('filename', 'path'):
                        continue
                    for headers in (None, True, False):
                        for c in CLOSE:
                            yield ('st', shard[1], h, specs, start, headers, c)
    else:
        for k in streams.KINDS:
            for nm in (None, 'given', ''):
                yield ('name', k, nm)


def build(h, specs, start=0):
    head = HEADERS[h]
    return M.build(([head] if head else []) + specs, start=start)


def evaluate(case, ctx):
    if case[0] != 'name' and 'unsized' in case:
        specs = case[case.index('unsized') + 1]
        if specs and specs[0][0] == 'Void':
            return      # a Void following a header of unknown size belongs to it
    ctx.add('evaluations')
    if case[0] == 'd':
        _, h, specs = case
        header = h != 'none' or bool(specs) and specs[0][0] == 'EBML'
        data, nodes = build(h, specs)
        for i, way in enumerate(WAYS):
            doc, withheader = open_way(way, data)
            # three different orders of use
            for order in ((0, 1, 2, 3, 4, 5), (2, 4, 3, 0, 5, 1), (4, 3, 1, 2, 0, 5))[i % 3:][:1] + ((0, 2, 1, 3, 0),):
                try:
                    look(doc, nodes, data, header, withheader, order)
                except Viol as e:
                    raise Viol('loaded by %s, uses in order %r: %s' % (way, order, e))
            ctx.add('loads')
        a, b = open_way('docT', data)[0], open_way('docF', data)[0]
        require((a.info, a.type, a.version, a.size, a.name, a.schema) == (b.info, b.type, b.version, b.size, b.name, b.schema), 'headers=False changes more than the roots')
        ctx.add('distinct_nontrivial')
    elif case[0] == 'st':
        stream_case(case, ctx)
    else:
        _, kind, nm = case
        data, nodes = build('full', [])
        path = os.path.join(scratch(), 'n%d.some.ebml' % os.getpid())
        st, closer = streams.make(kind, data, 0, path)
        try:
            doc = obs.vs().load(st, name=nm)
            if nm is not None:
                require(doc.name == nm, 'name %r, given %r', doc.name, nm)
            elif kind in streams.NAMED:
                require(doc.name == os.path.basename(path)[:-5], 'name %r of a document from %r', doc.name, path)
                require(os.path.realpath(doc.filename) == os.path.realpath(path), 'filename %r, not %r', doc.filename, path)
            else:
                require(isinstance(doc.name, str) and doc.name, 'name %r', doc.name)
            require(doc.type == 'vtest', 'type %r', doc.type)
            doc.close()
            # The size given is the one shown, and changes nothing else
            if kind not in ('filename', 'path'):
                for size in (0, 1, len(data), len(data) + 7, 1 << 40):
                    for how in (lambda: obs.vs().load(st, size=size, headers=True), lambda: obs.vs().document(st, None, size)):
                        st.seek(0)
                        doc = how()
                        require(doc.size == size, 'size %r, given %r', doc.size, size)
                        obs.check_all(doc, nodes, data)
                        require(doc.type == 'vtest' and len(doc) == len(nodes), 'a document of given size %r', size)
        finally:
            closer()
        ctx.add('distinct_nontrivial')


class Boom(Exception):
    pass


def stream_case(case, ctx):
    _, kind, h, specs, start, headers, how = case
    data, nodes = build(h, specs, start)
    data = b'\xa5' * start + data
    if kind == 'mmap' and not data:
        return
    path = os.path.join(scratch(), 's%d.ebml' % os.getpid())
    st, closer = streams.make(kind, data, start, path)
    owned = kind in ('filename', 'path')
    header = h != 'none' or bool(specs) and specs[0][0] == 'EBML'
    try:
        kw = {} if headers is None else dict(headers=headers)
        doc = obs.vs().load(st, **kw)
        require(owned or doc.stream is st, 'the document uses another stream than the one given')
        if how in ('close', 'twice'):
            at = itertools.cycle([0, start, len(data), min(start + 1, len(data)), max(0, len(data) - 2), 0])
            look(doc, nodes, data, header, bool(headers), (1, 0, 2, 3, 2, 5, 4), None if how == 'close' else lambda: doc.stream.seek(next(at)))
            doc.close()
            if how == 'twice':
                doc.close()
        elif how == 'with':
            with doc as d:
                require(d is doc, 'the context manager gives %r', d)
                look(doc, nodes, data, header, bool(headers), (1, 0, 2))
        else:
            # One kind of exception per document, all of them if it is cheap to have another.
            for n, kind_ in enumerate((Boom,) + RAISE):
                if n:
                    if not owned:
                        break
                    doc = obs.vs().load(st, **kw)
                exc = kind_('boom')
                try:
                    with doc:
                        raise exc
                except BaseException as e:
                    require(e is exc, 'the document turns %r into %r', exc, e)
                else:
                    raise Viol('the document swallows %r' % exc)
                if owned:
                    require(doc.stream.closed, 'the stream opened by the document is open after %r', exc)
        if owned:
            require(doc.stream.closed, 'the stream opened by the document is open after %s', how)
        else:
            require(not getattr(st, 'closed', False), 'the stream given to the document is closed after %s', how)
            st.seek(start)
            require(st.read(len(data) + 1) == data[start:], 'the stream given to the document is unusable after %s', how)
            # and so is the document, as the stream is open
            look(doc, nodes, data, header, bool(headers), (2, 1, 0))
    finally:
        closer()
    ctx.add('distinct_nontrivial')
