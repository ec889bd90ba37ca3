""" C30: own handlers of unknown elements, codecs and element types are used like built-in ones. """
import functools
import io
import itertools
import os
import sys
from xml.etree import ElementTree as ET
from mc.base import Viol, require, scratch
from mc import model as M, obs, docs
from ebmlite import core, util, xml_codecs

ID = 'C30'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all documents of a bounded grammar x own handlers, codecs and definitions, against a builder'
RULE = ('All ordered forests of up to n elements with unknown elements among known ones, in sized and unknown-size containers, are read by every traversal with every kind of own handler '
        '(class, pre-reading class, schema subclass, function, partial, callable object, factory of typed elements and containers, one that moves the stream, one that raises at every place, one replaced while reading); '
        'what is yielded must be what the handler returned for that position, size and ID. The same forests are converted to XML, printed and converted back with own codecs (registered, replacing a built-in one, '
        'passed as an instance, without a common base class) for binary and Void contents, with every call recorded. Every definition of a list (type x attributes x place x second place) is added to a schema '
        'by code and compared with the schema whose XML has it. Non-trivial: cases where an own part is used.')
BOUNDS = dict(quick='forests of up to 3 of 9 leaves and 5 containers x 10 handlers; of up to 3 x 6 codecs x 9 uses; 8 types x 20 attribute sets x 6 places x 5 second places; header elements by code; pre-reading by own types',
              thorough='forests of up to 4 of 9 leaves and 5 containers x 10 handlers; of up to 4 x 6 codecs x 9 uses; definitions as quick with all attribute sets in all second places')
ASSUMPTIONS = ['a handler that raises TypeError with "ord()" in its message, or StopIteration, is left open', 'how often a handler is called for one element is left open',
               'a pre-reading handler that moves the stream is left open', 'the Void type cannot be added by code as such']

# ------------------------------------------------------------------ handlers
LEAVES = [('U', b'\x05', None), ('B', b'\x81\x81\x05', None), ('Void', b'\xff\xa0\x80', None), ('Z', b'h\xc3\xa9', 3), (0x4FFE, b'u\xa0\x81', None), (0xFD, b'', 3), (0x1FEDCBA9, b'\x01', 8),
          (0x4FFE, b'', None), ('D', docs.DATE, None)]
MASTERS = [('Grp', None), ('Sub', 2), ('Cl', -1), ('PM', None), ('Seg', 8)]
NINE = [('XU', b'\1\2', 2), ('XU', b'', None), ('XM', [], None), ('XM', [('XC', b'ab', None), ('XC', b'', 8)], 4), ('XM', [('XC', b'ab', None)], -1), ('XM', [], -8), ('XC', b'\x81\x80', None), ('U', b'\5', None), ('B', b'q', None)]
TYPED_XML = M.VS_XML.replace('</Schema>', '<UIntegerElement name="XU" id="0x4FFE"/><MasterElement name="XM" id="0xFD" multiple="1"><BinaryElement name="XC" id="0x1FEDCBA9"/></MasterElement></Schema>')
RT = M.RefSchema(TYPED_XML)
HANDLERS = ['class', 'precache', 'subclass', 'function', 'partial', 'object', 'mover', 'method', 'slots']


class Own(core.UnknownElement):
    name = 'Own'
    made = None

    def __init__(self, stream=None, offset=0, size=0, payloadOffset=0, eid=None, schema=None):
        super().__init__(stream, offset, size, payloadOffset, eid=eid, schema=schema)
        note(self, stream, offset, size, payloadOffset, eid, schema)


class OwnPre(Own):
    precache = True


class OwnSlots(Own):
    __slots__ = ('extra',)
    name = 'Slotted'

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.extra = (self.id, self.offset)


class SubSchema(core.Schema):
    UNKNOWN = Own


class Maker:
    def __call__(self, stream, offset, size, payloadOffset, eid=None, schema=None):
        el = core.UnknownElement(stream, offset, size, payloadOffset, eid=eid, schema=schema)
        note(el, stream, offset, size, payloadOffset, eid, schema)
        return el

    make = __call__


calls = []      # (returned, stream, offset, size, payloadOffset, eid, schema)


def note(*args):
    calls.append(args)


def plain(stream, offset, size, payloadOffset, eid=None, schema=None):
    return Maker()(stream, offset, size, payloadOffset, eid, schema)


def with_extra(extra, stream, offset, size, payloadOffset, eid=None, schema=None):
    el = Own(stream, offset, size, payloadOffset, eid=eid, schema=schema)
    assert extra == 'extra'
    return el


def mover(stream, offset, size, payloadOffset, eid=None, schema=None):
    el = plain(stream, offset, size, payloadOffset, eid, schema)
    here = stream.tell()
    require(here == payloadOffset, 'the handler of 0x%X at %d found the stream at %d', eid, offset, here)
    stream.read(size + 2)
    stream.seek(1)
    return el


_schemas = {}


def schema_for(kind):
    if kind not in _schemas:
        if kind == 'subclass':
            s = SubSchema(io.StringIO(M.VS_XML), 'own')
        else:
            s = core.Schema(io.StringIO(M.VS_XML), 'own')
        if kind == 'typed':
            classes = {}
            classes[0x4FFE] = type('XU', (core.UIntegerElement,), dict(id=0x4FFE, name='XU', schema=s, children=None))
            classes[0x1FEDCBA9] = type('XC', (core.BinaryElement,), dict(id=0x1FEDCBA9, name='XC', schema=s, children=None))
            classes[0xFD] = type('XM', (core.MasterElement,), dict(id=0xFD, name='XM', schema=s, multiple=True, children={0x1FEDCBA9}))

            def typed(stream, offset, size, payloadOffset, eid=None, schema=None):
                el = classes[eid](stream, offset, size, payloadOffset) if eid in classes else core.UnknownElement(stream, offset, size, payloadOffset, eid=eid, schema=schema)
                note(el, stream, offset, size, payloadOffset, eid, schema)
                return el
            s.UNKNOWN = typed
        elif kind != 'subclass':
            s.UNKNOWN = {'class': Own, 'precache': OwnPre, 'function': plain, 'partial': functools.partial(with_extra, 'extra'), 'object': Maker(), 'mover': mover, 'method': Maker().make, 'slots': OwnSlots}.get(kind, core.UnknownElement)
        _schemas[kind] = s
    return _schemas[kind]


NAMES = {'class': 'Own', 'precache': 'Own', 'subclass': 'Own', 'partial': 'Own', 'slots': 'Slotted'}


class Boom(Exception):
    pass


ERRORS = [ValueError('own'), KeyError(7), Boom('b'), OSError(5, 'own'), AttributeError('own'), IndexError('own'), TypeError('own'), UnicodeDecodeError('utf8', b'\xff', 0, 1, 'own')]


# ------------------------------------------------------------------ codecs
class Rev(xml_codecs.BinaryCodec):
    """ Reversed hexadecimal. """
    NAME = 'rev'
    log = []

    def encode(self, data, stream=None, indent='', offset=0, **kwargs):
        text = '~' + bytes(data)[::-1].hex()
        self.log.append(('enc', self, bytes(data), offset, indent, stream))
        if stream is not None:
            return stream.write(text)
        return text

    @classmethod
    def decode(cls, data, stream=None):
        cls.log.append(('dec', data))
        out = bytes.fromhex((data or '').strip()[1:])[::-1]
        return out if stream is None else stream.write(out)


class Base(Rev):
    """ In place of base64. """
    NAME = 'base64'


class Opt(Rev):
    """ With options. """
    NAME = 'opt'

    def __init__(self, mark='~', **kwargs):
        super().__init__(**kwargs)
        self.mark = mark

    def encode(self, data, stream=None, indent='', offset=0, **kwargs):
        text = self.mark + bytes(data)[::-1].hex()
        self.log.append(('enc', self, bytes(data), offset, indent, stream))
        if stream is not None:
            return stream.write(text)
        return text


class Duck:
    """ Not derived from anything. """
    NAME = 'duck'
    log = Rev.log
    encode = Rev.encode
    decode = classmethod(Rev.decode.__func__)


class Empty(Rev):
    """ Writes nothing for an empty payload. """
    NAME = 'empty'

    def encode(self, data, stream=None, indent='', offset=0, **kwargs):
        self.log.append(('enc', self, bytes(data), offset, indent, stream))
        text = bytes(data).hex()
        return text if stream is None else stream.write(text)

    @classmethod
    def decode(cls, data, stream=None):
        cls.log.append(('dec', data))
        out = bytes.fromhex(data or '')
        return out if stream is None else stream.write(out)


class Mixed(Rev):
    """ Its name needs care. """
    NAME = 'My Rev-2'


CODECS = {'rev': Rev, 'base64': Base, 'opt': Opt, 'duck': Duck, 'empty': Empty, 'My Rev-2': Mixed}
CLEAVES = [('U', b'\x05', None), ('B', b'\x81\x81\x05', None), ('Void', b'\xff\xa0\x80', None), ('B', b'', 8), ('CRC-32', b'\1\2\3\4', None), ('Void', b'', None), (0x4FFE, b'u\xa0\x81', None), ('Z', b'h\xc3\xa9', 3), (0xFD, b'', 3)]

# ------------------------------------------------------------- definitions
ATTRS = [{}, {'multiple': '1'}, {'multiple': '0', 'mandatory': '1'}, {'precache': '1'}, {'precache': '0'}, {'length': '4'}, {'length': '0x8'}, {'length': ' 6 '}, {'global': '1'}, {'global': 'true', 'multiple': 'True'},
         {'global': '0', 'level': '-1'}, {'level': '-1'}, {'level': '2'}, {'multiple': ' 1 '}, {'multiple': ''}, {'mandatory': 'false', 'precache': 'False', 'multiple': 'T'}, {'default': '3', 'minver': '1'}, {'length': '8', 'multiple': '1', 'precache': '1'}, {'length': ''}, {'unheard': 'of', 'multiple': 't'}]
TAGS = sorted(M.KINDS)
PLACES = ['', 'Grp', 'Sub', 'Seg', 'EBML', 'Cl']
SECOND = [None, ('', 'name'), ('Sub', 'id'), ('Seg', 'both'), ('Cl', 'name')]
BADDEF = ['othertype', 'otherattr', 'noname', 'noid', 'badname', 'strid', 'emptyname?', 'nameclash']


def shards(tier):
    return ([('h', k, i) for k in HANDLERS + ['typed', 'replaced'] for i in range(3)] + [('raise', i) for i in range(4)] + [('k', c, i) for c in CODECS for i in range(3)] +
            [('a', t) for t in TAGS] + [('hdr', i) for i in range(4)] + [('pre', 0), ('own', 0), ('bad', 0), ('tool', 0)])


def hforests(kind, tier):
    n = 4 if tier == 'thorough' else 3
    if kind == 'typed':
        masters, leaves = [('Grp', None), ('Sub', 2), ('PM', None), ('Seg', 8), ('XM', None)], NINE
    else:
        masters, leaves = MASTERS, LEAVES
    for k in range(1, n + 1):
        if k >= 3:
            yield from M.forests(k, masters[:3] if k == 3 else masters[:2], leaves[:6] if k == 3 else leaves[3:7])
        else:
            yield from M.forests(k, masters, leaves)


def cases(shard, tier):
    kind = shard[0]
    if kind == 'h':
        for specs in itertools.islice(hforests(shard[1], tier), shard[2], None, 3):
            if has_inf_trouble(specs):
                continue
            yield ('h', shard[1], specs)
    elif kind == 'raise':
        for specs in itertools.islice(hforests('class', 'quick'), shard[1], None, 4):
            if not has_inf_trouble(specs):
                yield ('raise', specs)
    elif kind == 'k':
        n = 4 if tier == 'thorough' else 3
        it = itertools.chain.from_iterable(M.forests(k, MASTERS if k < 3 else MASTERS[:2], CLEAVES if k < 3 else CLEAVES[1:7]) for k in range(0, n + 1))
        for specs in itertools.islice(it, shard[2], None, 3):
            if not has_inf_trouble(specs):
                yield ('k', shard[1], specs)
    elif kind == 'a':
        for i, place in itertools.product(range(len(ATTRS)), PLACES):
            yield ('a', shard[1], i, place)
    elif kind == 'bad':
        for t, place, b in itertools.product(TAGS, PLACES, BADDEF):
            yield ('bad', t, place, b)
    elif kind == 'own':
        for place in PLACES:
            yield ('own', place)
    elif kind == 'hdr':
        n = 0
        for k in range(1, 6 if tier == 'thorough' else 4):
            for order in itertools.permutations(HDR, k):
                for asked in (False, True):
                    n += 1
                    if n % 4 == shard[1]:
                        yield ('hdr', order, asked)
    elif kind == 'pre':
        for own, tag, attr in itertools.product((None, False, True), TAGS, (None, '0', '1')):
            for how in ('code', 'xml', 'legacy', 'plain'):
                yield ('pre', own, tag, attr, how)
    else:
        for c in CODECS:
            if c != 'duck':
                yield ('tool', c)


def has_inf_trouble(specs, nested=False):
    """ Would what follows an unknown-size container be taken into it, or what is in it end it? """
    d = M.VS.byName['Cl']
    for i, (name, payload, width) in enumerate(specs):
        if isinstance(payload, list):
            if name == 'Cl' and width < 0:
                if any(isinstance(s[0], int) or not ok_in(d, s[0]) for s in payload):
                    return True
                nxt = specs[i + 1][0] if i + 1 < len(specs) else None
                if nxt is not None and not isinstance(nxt, int) and ok_in(d, nxt):
                    return True
            if name == 'XM' and width is not None and width < 0 and (specs[i + 1][0] == 'XC' if i + 1 < len(specs) else nested):
                return True
            if has_inf_trouble(payload, True):
                return True
    return False


def ok_in(d, name):
    r = M.VS.byName.get(name)
    return r is not None and (r.id in d.children or r.isglobal)


def evaluate(case, ctx):
    del calls[:]
    del Rev.log[:]
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.add('evaluations')


# ------------------------------------------------------------------ handlers
def rename(nodes, name):
    for nd in M.walk(nodes):
        if nd.kind == 'unknown':
            nd.name = name
    return nodes


def check_calls(nodes, data, sch, stream, ids=None):
    """ Every call must be for one of the unknown elements, with its own figures. """
    want = {(nd.off, nd.size if not nd.unknown else None, nd.poff, nd.id) for nd in M.walk(nodes) if (nd.kind == 'unknown' if ids is None else nd.id in ids)}
    for el, st, off, size, poff, eid, s in calls:
        require((off, size, poff, eid) in want, 'the handler was called for offset %r, size %r, payload at %r, ID %r; unknown elements are %r', off, size, poff, eid, sorted(want, key=str))
        require(s is sch, 'the handler was given the schema %r', s)
        require(st is stream, 'the handler was given another stream: %r', st)
    got = {(c[2], c[3], c[4], c[5]) for c in calls}
    require(got == want, 'the handler was not called for %r', sorted(want - got, key=str))


def all_of(els):
    for el in els:
        yield el
        if isinstance(el, core.MasterElement):
            yield from all_of(el)


TRAVERSALS = {
    'iter': lambda doc: list(all_of(doc)),
    'value': lambda doc: list(itertools.chain.from_iterable([r] + (list(util.flatiter(r)) if isinstance(r, core.MasterElement) else []) for r in doc.value)),
    'flat': lambda doc: list(util.flatiter(doc)),
    'index': lambda doc: list(itertools.chain.from_iterable([r] + list(util.flatiter(r)) for r in (doc[i] for i in range(len(doc))))),
    'roots': lambda doc: list(itertools.chain.from_iterable([r] + list(util.flatiter(r)) for r in (doc.roots if hasattr(doc, 'roots') else doc))),
}


def do_h(ctx, kind, specs):
    if kind == 'replaced':
        choosing(ctx, specs)
        nameless(ctx, specs)
        return replaced(ctx, specs)
    sch = schema_for(kind)
    ref = RT if kind == 'typed' else M.VS
    data, nodes = M.build(specs, ref)
    rename(nodes, NAMES.get(kind, 'UnknownElement'))
    ids = (0x4FFE, 0xFD, 0x1FEDCBA9) if kind == 'typed' else None
    flat = list(M.walk(nodes))
    for tname, fn in sorted(TRAVERSALS.items()):
        del calls[:]
        stream = io.BytesIO(data)
        doc = sch.load(stream, headers=True)
        els = fn(doc)
        require(len(els) == len(flat), '%s: %d elements of %d with handler %s', tname, len(els), len(flat), kind)
        made = {id(c[0]) for c in calls}
        for el, nd in zip(els, flat):
            obs.check_el(el, nd, data, deep=False, values=nd.kind != 'master', schema=sch)
            own = nd.kind == 'unknown' if ids is None else nd.id in ids
            require((id(el) in made) == own, '%s at %d is %sone of the objects the handler returned', nd.name, nd.off, 'not ' if own else '')
            if kind == 'slots' and own:
                require(el.extra == (nd.id, nd.off), 'wrong extra %r', el.extra)
        check_calls(nodes, data, sch, stream, ids)
    doc = sch.load(io.BytesIO(data), headers=True)
    obs.check_all(doc, nodes, data, schema=sch)
    # names in XML, and back with the ID
    root = util.toXml(doc)
    tags = [e.tag for e in root.iter()][1:]
    require(tags == [nd.name for nd in flat], 'XML tags %r for %r', tags, [nd.name for nd in flat])
    # the default handler of another schema of the same definition
    other = obs.vs()
    if kind != 'typed':
        n = len(calls)
        odoc = other.load(io.BytesIO(data), headers=True)
        for el, nd in zip(all_of(odoc), flat):
            require(el.name == ('UnknownElement' if nd.kind == 'unknown' else nd.name) and (nd.kind != 'unknown' or type(el) is core.UnknownElement), 'another schema gave %r at %d', el, nd.off)
        require(len(calls) == n, 'the handler was called for another schema')
        out = sch.loads(data)
        raised = False
        try:
            sch.verify(data)
        except Exception:
            raised = True
        require(raised == any(nd.kind == 'unknown' for nd in flat), 'verify() %s', 'raised' if raised else 'accepted an unknown element')
    if any(c for c in calls):
        ctx.add('distinct_nontrivial')


def replaced(ctx, specs):
    """ The handler is exchanged before each root is read. """
    sch = schema_for('replaced')
    data, nodes = M.build(specs)
    kinds = [Own, OwnSlots, core.UnknownElement, plain]
    try:
        for first in range(len(kinds)):
            sch.UNKNOWN = kinds[first]
            doc = sch.load(io.BytesIO(data), headers=True)
            it = iter(doc)
            for i, nd in enumerate(nodes):
                h = kinds[(first + i) % len(kinds)]
                sch.UNKNOWN = h
                el = next(it)
                for e, n in zip(all_of([el]), M.walk([nd])):
                    if n.kind == 'unknown':
                        require(type(e) is (core.UnknownElement if h is plain else h), 'root %d: %r was handled by %r instead of %r', i, n, type(e), h)
                        ctx.add('distinct_nontrivial')
                    else:
                        require(e.name == n.name, 'root %d: %r for %r', i, e, n)
    finally:
        sch.UNKNOWN = core.UnknownElement


def nameless(ctx, specs):
    """ What a handler gives has no name, or that of something else; it is never a header. """
    sch = schema_for('replaced')
    data, nodes = M.build(specs)
    if nodes and nodes[0].kind != 'unknown' and nodes[0].id == 0x1A45DFA3:
        return
    for base, name in itertools.product((core.UnknownElement, core.MasterElement, core.BinaryElement), (None, '', 'DocType', 'Ebml')):
        def handler(stream, offset, size, payloadOffset, eid=None, schema=None):
            kind = type('Own', (base,), dict({'name': name}, **({} if base is core.UnknownElement else {'id': eid, 'schema': schema})))
            return kind(stream, offset, size, payloadOffset, **({'eid': eid, 'schema': schema} if base is core.UnknownElement else {}))
        sch.UNKNOWN = handler
        try:
            for headers in (False, True):
                doc = sch.load(io.BytesIO(data), headers=headers)
                require(doc.info == {} and doc.type is None and doc.version is None, 'without a header, the information is %r (the handler gives %s called %r)', doc.info, base.__name__, name)
                got = [(e.offset, e.name) for e in doc]
                want = [(nd.off, name if nd.kind == 'unknown' else nd.name) for nd in nodes]
                require(got == want, 'with headers=%r, the roots are %r, not %r', headers, got, want)
                ctx.add('evaluations')
        finally:
            sch.UNKNOWN = core.UnknownElement


def choosing(ctx, specs):
    """ Elements that each say whether they are read ahead. """
    sch = schema_for('replaced')
    data, nodes = M.build(specs)
    n = len([nd for nd in M.walk(nodes) if nd.kind == 'unknown'])
    for mask in range(1 << min(n, 4)):
        for how in ('slot', 'property', 'class'):
            seen = []

            class Choosy(core.UnknownElement):
                def __init__(self, *args, **kwargs):
                    super().__init__(*args, **kwargs)
                    if how == 'slot':
                        self.precache = self.ahead()

                def ahead(self):
                    at = [nd.off for nd in M.walk(nodes) if nd.kind == 'unknown'].index(self.offset)
                    return bool(mask >> at & 1)

                def parse(self, stream, size):
                    seen.append(self.offset)
                    return super().parse(stream, size)
            if how == 'property':
                Choosy.precache = property(Choosy.ahead)
            kinds = [type('Ahead', (Choosy,), {'precache': b}) for b in (False, True)] if how == 'class' else None

            def handler(stream, offset, *args, **kwargs):
                if kinds is None:
                    return Choosy(stream, offset, *args, **kwargs)
                at = [nd.off for nd in M.walk(nodes) if nd.kind == 'unknown'].index(offset)
                return kinds[mask >> at & 1](stream, offset, *args, **kwargs)
            sch.UNKNOWN = handler
            try:
                doc = sch.load(io.BytesIO(data), headers=True)
                del seen[:]
                els = list(all_of(doc))
                want = [nd.off for i, nd in enumerate(x for x in M.walk(nodes) if x.kind == 'unknown') if mask >> i & 1]
                require(sorted(set(seen)) == want, 'elements that choose (%s) were read ahead at %r, not %r', how, seen, want)
                for el, nd in zip(els, M.walk(nodes)):
                    if nd.kind == 'unknown':
                        require(bytes(el.value) == bytes(nd.value), 'the value at %d is %r', nd.off, el.value)
            finally:
                sch.UNKNOWN = core.UnknownElement
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial', bool(want))


def do_raise(ctx, specs):
    """ A handler that raises for the k-th unknown element. """
    sch = schema_for('replaced')
    data, nodes = M.build(specs)
    flat = list(M.walk(nodes))
    unknowns = [nd for nd in flat if nd.kind == 'unknown']
    try:
        for k, nd in enumerate(unknowns):
            for j, err in enumerate(ERRORS):
                def handler(stream, offset, size, payloadOffset, eid=None, schema=None):
                    if offset == nd.off:
                        raise err
                    return core.UnknownElement(stream, offset, size, payloadOffset, eid=eid, schema=schema)
                sch.UNKNOWN = handler
                ways = [('iter', lambda d: all_of(d)), ('flat', util.flatiter)][j % 2:][:1]
                for wname, way in ways:
                    doc = sch.load(io.BytesIO(data), headers=True)
                    got, caught = [], None
                    try:
                        for el in way(doc):
                            got.append(el.offset)
                    except Exception as e:
                        caught = e
                    require(caught is err, '%s: the error %r of the handler at %d became %r after %r', wname, err, nd.off, caught, got)
                    before = [n.off for n in flat if n.off < nd.off]
                    if not any(n.kind == 'master' and n.name == 'PM' for n in flat):
                        require(got == before, '%s: %r read before the error at %d, expected %r', wname, got, nd.off, before)
                caught = None
                fn = [lambda: util.toXml(sch.loads(data)), lambda: util.pprint(sch.loads(data), out=io.StringIO()), lambda: sch.loads(data).dump(), lambda: sch.loads(data).value and [e.value for e in all_of(sch.loads(data))]][j % 4]
                try:
                    fn()
                except Exception as e:
                    caught = e
                require(caught is err, 'conversion: the error %r of the handler at %d became %r', err, nd.off, caught)
                # and all is well with a working handler
                sch.UNKNOWN = core.UnknownElement
                obs.check_all(sch.load(io.BytesIO(data), headers=True), nodes, data, raw=False)
                ctx.add('distinct_nontrivial')
    finally:
        sch.UNKNOWN = core.UnknownElement


# ------------------------------------------------------------------ codecs
def c_flat(specs):
    for s in specs:
        yield s
        if isinstance(s[1], list):
            yield from c_flat(s[1])


class registered:
    def __init__(self, *classes):
        self.classes = classes

    def __enter__(self):
        self.old = dict(xml_codecs.BINARY_CODECS)
        for c in self.classes:
            xml_codecs.BINARY_CODECS[c.NAME] = c

    def __exit__(self, *exc):
        xml_codecs.BINARY_CODECS.clear()
        xml_codecs.BINARY_CODECS.update(self.old)


def uses(cname):
    """ (label, binary_codec, void_codec, registered needed) """
    c = CODECS[cname]
    inst = Opt(mark='#') if cname == 'opt' else c()
    inst2 = Opt(mark='%') if cname == 'opt' else c()
    yield 'name', cname, 'ignore'
    yield 'both names', cname, cname
    yield 'instance', inst, 'ignore'
    yield 'instances', inst, inst2
    yield 'one instance', inst, inst
    yield 'void name', 'hex', cname
    yield 'void instance', 'hex', inst2
    yield 'name and default', cname, None
    yield 'default and instance', None, inst


def mark(codec, cname):
    return getattr(codec, 'mark', '~') if not isinstance(codec, str) else '~'


def is_own(codec, cname):
    return codec == cname or isinstance(codec, CODECS[cname]) or (codec is None and cname == 'base64')


def exchanged(ctx, specs):
    """ A codec is exchanged for another between uses. """
    data, nodes = M.build(specs)
    vs = obs.vs()
    for name, (a, b) in itertools.product(('hex', 'base64', 'ignore', 'later'), itertools.permutations((Rev, Empty, xml_codecs.HexCodec, xml_codecs.Base64Codec), 2)):
        shown = []
        for c in (a, b, a):
            with registered():
                xml_codecs.BINARY_CODECS[name] = type('C', (c,), {'NAME': name})
                x = util.toXml(vs.loads(data), binary_codec=name, void_codec=name if name != 'ignore' else 'hex')
                p = io.StringIO()
                util.pprint(vs.loads(data), out=p, binary_codec=name)
                shown.append((ET.tostring(x), p.getvalue()))
                for e, nd in zip(list(x.iter())[1:], M.walk(nodes)):
                    if nd.kind in ('binary', 'unknown'):
                        # (what the class writes of itself)
                        want = c().encode(bytes(nd.value), offset=nd.off)
                        require((e.text or '') == (want or ''), '%r, exchanged for %s, is used as %r', name, c.__name__, e.text)
                out = io.BytesIO()
                if name != 'ignore':
                    util.xml2ebml(x, out, vs, headers=False)
                    back = [bytes(n.value) for n in M.walk(M.parse(out.getvalue(), M.VS)[0]) if n.kind in ('binary', 'unknown')]
                    require(back == [bytes(n.value) for n in M.walk(nodes) if n.kind in ('binary', 'unknown')], '%r, exchanged for %s, is read back as %r', name, c.__name__, back)
        require(shown[0] == shown[2], 'after %r was exchanged and changed back, something else is shown', name)
        ctx.add('evaluations')
    del Rev.log[:]


def do_k(ctx, cname, specs):
    if cname == 'rev' and len(list(c_flat(specs))) == 1:
        exchanged(ctx, specs)
    data, nodes = M.build(specs)
    flat = list(M.walk(nodes))
    vs = obs.vs()
    with registered(CODECS[cname]):
        for label, bc, vc in uses(cname):
            kw = {}
            if bc is not None:
                kw['binary_codec'] = bc
            if vc is not None:
                kw['void_codec'] = vc
            bown = is_own(bc, cname)
            vown = vc is not None and is_own(vc, cname)
            del Rev.log[:]
            doc = vs.load(io.BytesIO(data), headers=True)
            root = util.toXml(doc, **kw)
            where = '%s %s' % (cname, label)
            want = [(nd.raw if nd.kind != 'void' else b'', nd.off, bc if nd.kind != 'void' else vc, nd.kind) for nd in flat
                    if (nd.kind in ('binary', 'unknown') and bown) or (nd.kind == 'void' and vown)]
            check_log(where, want, Rev.log)
            for xel, nd in zip(list(root.iter())[1:], flat):
                own = bown if nd.kind in ('binary', 'unknown') else vown if nd.kind == 'void' else None
                if own:
                    codec = vc if nd.kind == 'void' else bc
                    name = codec if isinstance(codec, str) else 'base64' if codec is None else codec.NAME
                    text = '' if cname == 'empty' else mark(codec, cname)
                    raw = b'' if nd.kind == 'void' else bytes(nd.raw)
                    text += raw.hex() if cname == 'empty' else raw[::-1].hex()
                    require(xel.get('encoding') == name, '%s: encoding %r', where, xel.get('encoding'))
                    require((xel.text or '') == text, '%s: %s at %d: text %r, expected %r', where, nd.name, nd.off, xel.text, text)
            # there and back
            xml = ET.tostring(root)
            del Rev.log[:]
            out = io.BytesIO()
            util.xml2ebml(ET.fromstring(xml), out, vs, headers=False)
            decs = [e for e in Rev.log if e[0] == 'dec']
            # a Void without an encoding of its own is decoded as base64
            least = len(want)
            most = least + (sum(1 for nd in flat if nd.kind == 'void' and not vown) if cname == 'base64' else 0)
            require(least <= len(decs) <= most, '%s: %d texts decoded, expected %d', where, len(decs), least)
            back = vs.load(io.BytesIO(out.getvalue()), headers=True)
            got = [obs.content(e) for e in back]
            exp = [obs.node_content(nd) for nd in nodes]
            require(got == exp, '%s: converted back: %r, expected %r', where, got, exp)
            # printing
            for values in (True, False):
                del Rev.log[:]
                s = io.StringIO()
                util.pprint(vs.load(io.BytesIO(data), headers=True), values=values, out=s, **kw)
                pown = is_own(bc, cname) if bc is not None else False
                pw = [(nd.raw if nd.kind != 'void' else b'', nd.off, vc if nd.kind == 'void' and vown else bc, nd.kind) for nd in flat
                      if (nd.kind in ('binary', 'unknown') and pown) or (nd.kind == 'void' and vown)] if values else []
                if vc in (None, 'ignore'):
                    # whether the binary codec is also asked for an ignored Void is left open
                    voids = {nd.off for nd in flat if nd.kind == 'void'}
                    Rev.log[:] = [e for e in Rev.log if e[0] != 'enc' or e[3] not in voids]
                check_log(where + ' pprint', pw, Rev.log, s, True)
                if pw:
                    require('<%s>' % CODECS[cname].NAME in s.getvalue(), '%s: the name of the codec is not printed', where)
            ctx.add('evaluations')
            if want:
                ctx.add('distinct_nontrivial')


def check_log(where, want, log, stream=None, offsets=False):
    encs = [e for e in log if e[0] == 'enc']
    require(len(encs) == len(want), '%s: the codec was asked to encode %d times, expected %d', where, len(encs), len(want))
    for (_, inst, data, offset, indent, st), (raw, off, codec, kind) in zip(encs, want):
        require(data == raw, '%s: encode() was given %r, expected %r', where, data, raw)
        require(offset == off or (kind == 'void' and not offsets and offset == 0), '%s: encode() was given offset %r, expected %r', where, offset, off)
        if codec is not None and not isinstance(codec, str):
            require(inst is codec, '%s: another instance was used', where)
        require(st is stream, '%s: encode() was given the stream %r', where, st)


def do_tool(ctx, cname):
    """ A registered codec is offered by the command line tools. """
    from ebmlite.tools import ebml2xml, view_ebml, xml2ebml
    from contextlib import redirect_stdout, redirect_stderr
    d = os.path.join(scratch(), 'c30-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'vs.xml')
    with open(path, 'w') as f:
        f.write(M.VS_XML)
    specs = [docs.HEADER, ('Grp', [('B', b'\1\2\3', None), ('Void', b'abc', None), ('B', b'', None), ('Sub', [('B', b'\xff', None)], None)], None)]
    data, nodes = M.build(specs)
    with open(os.path.join(d, 'in.ebml'), 'wb') as f:
        f.write(data)

    def tool(mod, *args):
        argv = sys.argv
        sys.argv = ['tool'] + list(args)
        try:
            with redirect_stderr(io.StringIO()) as err, redirect_stdout(io.StringIO()):
                try:
                    mod.main()
                except SystemExit as e:
                    raise Viol('%s %r exited with %r: %s' % (mod.__name__, args, e.code, err.getvalue()))
        finally:
            sys.argv = argv
    with registered(CODECS[cname]):
        for single, full in itertools.product((0, 1), (0, 1)):
            del Rev.log[:]
            x, b, v = (os.path.join(d, n) for n in ('o.xml', 'o.ebml', 'o.txt'))
            tool(ebml2xml, os.path.join(d, 'in.ebml'), path, '-o', x, '-c', '-e', cname, *(['-s'] * single + ['-m'] * full))
            want = [(nd.raw, nd.off, None, nd.kind) for nd in M.walk(nodes) if nd.kind == 'binary']
            check_log('ebml2xml -e ' + cname, want, Rev.log)
            require(ET.parse(x).getroot().find('.//B').get('encoding') == cname, 'ebml2xml: encoding')
            tool(xml2ebml, x, path, '-o', b, '-c')
            sch = core.loadSchema(path)
            with open(b, 'rb') as f:
                got = [obs.content(e) for e in sch.load(f, headers=True)]
            exp = [obs.node_content(nd) for nd in nodes]
            require(got == exp, 'tools: %r, expected %r', got, exp)
            del Rev.log[:]
            tool(view_ebml, os.path.join(d, 'in.ebml'), path, '-o', v, '-c', '-e', cname)
            require(len(Rev.log) in (3, 4), 'view_ebml -e %s: %d calls', cname, len(Rev.log))
            ctx.add('distinct_nontrivial')


# ------------------------------------------------------------- definitions
SHORT = '''<Schema><MasterElement name="EBML" id="0x1A45DFA3" mandatory="1"><UIntegerElement name="EBMLVersion" id="0x4286" default="1"/>
<StringElement name="DocType" id="0x4282" default="own"/>%(EBML)s</MasterElement>
<BinaryElement name="Void" id="0xEC" global="1" multiple="1"/><MasterElement name="Grp" id="0xA0" multiple="1"><UIntegerElement name="U" id="0x81" multiple="1"/>
<MasterElement name="Sub" id="0x2B0001" multiple="1"><BinaryElement name="B" id="0x84" multiple="1"/>%(Sub)s</MasterElement>%(Grp)s</MasterElement>
<MasterElement name="Seg" id="0x18538067" multiple="1"><MasterElement name="Cl" id="0xA3" multiple="1">%(Cl)s</MasterElement>%(Seg)s</MasterElement>%(top)s</Schema>'''
SLOTS = ['EBML', 'Sub', 'Grp', 'Cl', 'Seg', 'top']
NEWID = 0x4FFE


def short(**fill):
    return core.Schema(io.StringIO(SHORT % dict({k: '' for k in SLOTS}, **fill)), 'short')


def describe(s):
    """ All that a schema says, by ID. """
    out = {}
    for eid, c in s.elements.items():
        if eid == 0xEC:
            continue
        out[eid] = (c.id, c.name, c.__base__.__name__, c.dtype, c.mandatory, c.multiple, c.precache, c.length, tuple(sorted(c.children or ())), (c.__doc__ or '').strip() or None, s.elementsByName[c.name] is c, s[eid] is c, s[c.name] is c, c.schema is s)
    return out, tuple(sorted(s.globals)), tuple(sorted(s.children)), s.elementInfo, s.type, s.version


VALUES = {'int': (b'\xfe', -2), 'uint': (b'\x07', 7), 'float': (docs.F32, None), 'string': (b'text', 'text'), 'utf8': (b'h\xc3\xa9', 'h\xe9'), 'date': (docs.DATE, None), 'binary': (b'\1\2', b'\1\2'), 'master': ([], [])}


def parent_of(s, place):
    return s.elementsByName[place] if place else None


def do_a(ctx, tag, ai, place):
    attrs = ATTRS[ai]
    kind = M.KINDS[tag]
    base = getattr(core, tag)
    seconds = SECOND if ctx.tier == 'thorough' or ai < 6 else SECOND[ai % 5:][:1]
    for second in seconds:
        if second is not None and second[0] == place:
            continue
        raw = dict(attrs, name='New', id='0x%X' % NEWID)
        text = '<%s %s>%s</%s>' % (tag, ' '.join('%s="%s"' % kv for kv in raw.items()), 'What it is', tag)
        fill = {place or 'top': text}
        if second is not None:
            key = {'name': 'name="New"', 'id': 'id="0x4FFE"', 'both': 'name="New" id="0x4FFE"'}[second[1]]
            fill[second[0] or 'top'] = '<%s %s/>' % (tag, key)
            if SLOTS.index(second[0] or 'top') < SLOTS.index(place or 'top'):
                # an XML definition must come first: put the full one there and the short one here
                fill = None
        s = short()
        before = s.loads(b'\x4f\xfe\x81\x01')
        require(type(before[0]) is core.UnknownElement, 'before: %r', before[0])
        # what is read before the definition does not stay
        def use(want=None):
            for holder in ('EBML', 'Grp', 'Sub', 'Seg', 'Cl'):
                for tail in (b'', b'\xec\x80', b'\x4f\xfe\x88' + (b'\xec\x80' * 4 if kind == 'master' else bytes(8))):
                    got = [e.name for e in s.load(io.BytesIO(M.id_bytes(s[holder].id) + b'\xff' + tail), headers=True)]
                    require(want is None or got == [holder] + ['UnknownElement'] * (len(tail) > 2), 'before the definition: %s holds %r', holder, got)
        use(True)
        own = dict(raw)
        cls = s.addElement(NEWID, 'New', base, own, parent_of(s, place), 'What it is')
        require(own == raw, 'addElement() changed its argument to %r', own)
        # the caller goes on using its dictionary
        own.clear()
        own.update(name='Other', id='0x4FFD', mandatory='1', multiple='1', default='9')
        if second is not None:
            use()
            p = parent_of(s, second[0])
            c2 = s.addElement(None if second[1] == 'name' else NEWID, None if second[1] == 'id' else 'New', base,
                              *([{}, p] if second[1] == 'both' else [{'name': 'New'} if second[1] == 'name' else {'id': '0x4FFE'}, p]))
            require(c2 is cls, 'the second definition gave another class')
        require(s['New'] is cls and s[NEWID] is cls and 'New' in s and NEWID in s and s.get('New') is cls, 'addElement() returned another class')
        where = '%s %r in %r and %r' % (tag, attrs, place, second)
        d = M.Def(NEWID, 'New', kind, raw)
        require((cls.id, cls.name, cls.mandatory, cls.multiple, cls.precache, cls.length) == (NEWID, 'New', d.mandatory, d.multiple, d.precache if 'precache' in attrs else base.precache, length_of(attrs)), '%s: attributes %r', where,
                (cls.id, cls.name, cls.mandatory, cls.multiple, cls.precache, cls.length))
        if fill is not None:
            x = short(**fill)
            a, b = describe(s), describe(x)
            require(a == b, '%s: defined by code: %r; by XML: %r', where, [i for i in a if i not in b], [i for i in b if i not in a])
            require(s == x and x == s and not s != x, '%s: the schemata are not equal', where)
        # reading: in every container, sized and not
        payload, value = VALUES[kind]
        ref = M.RefSchema(SHORT % dict({k: '' for k in SLOTS}, **{place or 'top': text}))
        rd = ref.byId[NEWID]
        places = {place} | ({second[0]} if second else set())
        for holder in ('Grp', 'Sub', 'Seg', 'Cl', 'EBML', None):
            specs = [('New', payload, None), ('Void', b'v', None)]
            for inf in ((None, -1, -8) if holder else (None,)):
                if inf is not None and not (holder in places or rd.isglobal):
                    # not allowed there: ends the container
                    tree = [(holder, [], inf), ('New', payload, None), ('U', b'\3', None)]
                elif holder:
                    tree = [(holder, specs, inf), ('Seg' if holder != 'Seg' else 'Grp', [], None)]
                else:
                    tree = specs
                if holder == 'EBML' and inf is not None:
                    continue
                if rd.kind == 'master' and rd.isglobal and inf is not None:
                    pass
                data, nodes = M.build(tree, ref)
                doc = s.load(io.BytesIO(data), headers=True)
                obs.check_all(doc, nodes, data, schema=s)
                for el, nd in zip(all_of(s.load(io.BytesIO(data), headers=True)), M.walk(nodes)):
                    if nd.id == NEWID:
                        require(type(el) is cls, '%s: read as %r', where, el)
                require(s.verify(data) is True, '%s: verify()', where)
                ctx.add('evaluations')
        # writing
        val = value if value is not None else M.decode(kind, payload)
        for key in ('New', NEWID):
            n = length_of(attrs)
            if n is not None and (kind == 'master' or kind == 'date' and n != 8 or kind == 'float' and n not in (4, 8)):
                continue
            out = s.encodes({key: {} if kind == 'master' else val})
            if n is None or kind in ('master',):
                ref1 = short(**{place or 'top': text}).encodes({key: {} if kind == 'master' else val})
                require(out == ref1, '%s: encoded %r, with XML %r', where, out, ref1)
            el = s.loads(out)[0]
            require(type(el) is cls and M.same(el.value, val if kind != 'binary' or n is None else bytes(val) + bytes(n - len(val))), '%s: wrote %r, read %r', where, val, el.value)
        # another schema still does not know it
        require('New' not in obs.vs() and NEWID not in short(), 'another schema got the element')
        ctx.add('distinct_nontrivial')


def length_of(attrs):
    try:
        return int(attrs['length'], 0)
    except (KeyError, ValueError):
        return None


class Celsius(core.FloatElement):
    """ A float stored as a scaled integer. """
    def parse(self, stream, size):
        return int.from_bytes(stream.read(size), 'big') / 10

    @classmethod
    def encodePayload(cls, data, length=None):
        return int(data * 10).to_bytes(length or 2, 'big')


class Lines(core.BinaryElement):
    __slots__ = ()
    dtype = frozenset
    precache = True

    def parse(self, stream, size):
        return frozenset(bytes(stream.read(size)).split(b'\n'))

    @classmethod
    def encodePayload(cls, data, length=None):
        return b'\n'.join(sorted(data))


class Box(core.MasterElement):
    __slots__ = ()

    def total(self):
        return sum(e.value for e in self if e.name == 'U')


class Codes(core.BinaryElement):
    """ A list of numbers, which is no container. """
    __slots__ = ()
    dtype = list

    def parse(self, stream, size):
        return list(stream.read(size))

    @classmethod
    def encodePayload(cls, data, length=None):
        return bytes(data)


def do_codes(ctx, place):
    s = short()
    p = parent_of(s, place)
    c = s.addElement(0x4FFB, 'Codes', Codes, {}, p)
    data = b'\x4f\xfb\x82\x81\x07'
    if place:
        data = M.id_bytes(s[place].id) + bytes([0x80 | len(data)]) + data
    doc = s.load(io.BytesIO(data), headers=True)
    want = [place, 'Codes'] if place else ['Codes']
    require([e.name for e in util.flatiter(doc)] == want and [e.name for e in util.flatiter(doc)] == want, 'flat iteration gives %r', [e.name for e in util.flatiter(doc)])
    el = doc[0][0] if place else doc[0]
    require(type(el) is c and el.value == [0x81, 7] and el.getRaw() == b'\x4f\xfb\x82\x81\x07', 'read as %r', el)
    require(doc.dump() == ({place: [{'Codes': [0x81, 7]}] if s[place].multiple else {'Codes': [0x81, 7]}} if place else {'Codes': [0x81, 7]}), 'dumped as %r', doc.dump())
    require(s.verify(data) is True, 'verify()')
    same = s.load(io.BytesIO(data), headers=True)
    require((same[0][0] if place else same[0]) == el, 'not equal to itself')
    ctx.add('distinct_nontrivial')


def do_own(ctx, place):
    do_codes(ctx, place)
    """ Own element types, derived from the built-in ones. """
    s = short()
    p = parent_of(s, place)
    t = s.addElement(0x4FFE, 'Temp', Celsius, {'multiple': '1'}, p)
    ln = s.addElement(0x4FFD, 'Lines', Lines, None, p)
    bx = s.addElement(0x4FFC, 'Box', Box, {'multiple': '1'}, p)
    s.addElement(0x81, 'U', core.UIntegerElement, None, bx)
    s.addElement(None, 'Temp', Celsius, None, bx)
    s.addElement(None, 'Box', Box, None, bx)
    require(issubclass(t, Celsius) and issubclass(ln, Lines) and issubclass(bx, Box), 'the types are not derived from the own ones')
    inner = [('Temp', 21.5), ('Lines', {b'a', b'', b'bc'}), ('Box', [('U', 1), ('Temp', 3.5), ('U', 5), ('Box', [('U', 7)])]), ('Temp', 0.0)]
    expb = (b'\x4f\xfe\x82\x00\xd7' + b'\x4f\xfd\x85\na\nbc' + b'\x4f\xfc\x91\x81\x81\x01\x4f\xfe\x82\x00\x23\x81\x81\x05\x4f\xfc\x83\x81\x81\x07' + b'\x4f\xfe\x82\x00\x00')
    data = s.encodes([(place, inner)] if place else inner)
    require(data.endswith(expb), 'encoded %r', data)
    for how in range(3):
        doc = s.load(io.BytesIO(data), headers=True)
        els = list(doc[0]) if place else list(doc)
        require([type(e) for e in els] == [t, ln, bx, t], 'read as %r', els)
        if how == 1:
            for e in all_of(els):
                e.gc()
        elif how == 2:
            [e.value for e in els]
        require(els[0].value == 21.5 and els[1].value == {b'a', b'', b'bc'} and els[3].value == 0.0, 'values %r', [e.value for e in els])
        require(els[2].total() == 6 and els[2][3].total() == 7 and isinstance(els[2][3], Box) and els[2][1].value == 3.5, 'the box holds %r', els[2].dump())
        require(els[1].getRawValue() == b'\na\nbc', 'raw %r', els[1].getRawValue())
    require(s.verify(data) is True, 'verify()')
    # of unknown size
    inf = b'\x4f\xfc\x01\xff\xff\xff\xff\xff\xff\xff\x81\x81\x09\x4f\xfe\x82\x00\x0a' + b'\x4f\xfd\x80'
    d = s.loads(inf)
    require(type(d[0]) is bx and d[0].size == 8 and d[0].total() == 9 and type(d[1]) is ln, 'unknown size: %r', list(d))
    # an unknown-size container of an own type is written as other containers are
    out = bx.encode([('U', 1)], infinite=True)
    require(s.loads(out)[0].total() == 1 and out.endswith(b'\x81\x81\x01') and len(out) >= 6, 'infinite: %r', out)
    ctx.add('distinct_nontrivial', 3)


# The header's elements: name -> (ID, type, default)
HDR = {'DocType': (0x4282, 'StringElement', 'late'), 'DocTypeVersion': (0x4287, 'UIntegerElement', '7'), 'DocTypeReadVersion': (0x4285, 'UIntegerElement', '3'),
       'EBMLVersion': (0x4286, 'UIntegerElement', '2'), 'EBMLReadVersion': (0x42F7, 'UIntegerElement', '5')}


def do_hdr(ctx, order, asked):
    """ Header elements defined by code, one after the other, as those of XML. """
    xml = '<Schema><MasterElement name="EBML" id="0x1A45DFA3">%s</MasterElement><UIntegerElement name="U" id="0x81"/></Schema>'
    s = core.Schema(io.StringIO(xml % ''), 'late')
    inner = ''
    if asked:
        require(s.type is None and s.version is None and s.encodes({'U': 1}, headers=True)[4:] == b'\x80\x81\x81\x01', 'an empty header')
    for i, name in enumerate(order):
        eid, tag, default = HDR[name]
        s.addElement(eid, name, getattr(core, tag), {'name': name, 'id': '0x%X' % eid, 'default': default}, s['EBML'])
        inner += '<%s name="%s" id="0x%X" default="%s"/>' % (tag, name, eid, default)
        if not asked and i + 1 < len(order):
            continue
        x = core.Schema(io.StringIO(xml % inner), 'late')
        require((s.type, s.version) == (x.type, x.version) == ('late' if 'DocType' in order[:i + 1] else None, 7 if 'DocTypeVersion' in order[:i + 1] else None),
                'type and version %r, by XML %r', (s.type, s.version), (x.type, x.version))
        a, b = s.encodes({'U': 1}, headers=True), x.encodes({'U': 1}, headers=True)
        require(a == b, 'the header is %r, by XML %r', a, b)
        d = s.loads(a)
        require(d.type == s.type and d.version == s.version and set(d.info) == set(order[:i + 1]), 'a document of it: %r', d.info)
        out = io.BytesIO()
        util.xml2ebml(ET.fromstring('<%s><U value="1"/></%s>' % ((type(d).__name__,) * 2)), out, s)
        require(out.getvalue()[:len(a) - 3] == a[:-3], 'the header from XML is %r', out.getvalue())
    ctx.add('distinct_nontrivial')


def do_pre(ctx, own, tag, attr, how):
    """ Own types that say whether they are read ahead. """
    base = getattr(core, tag)
    if how != 'plain':
        base = type('Mine', (base,), dict({'__slots__': base.__slots__}, **({} if own is None else {'precache': own})))
    elif own is not None:
        return
    attrs = {} if attr is None else {'precache': attr}
    text = ''.join(' %s="%s"' % kv for kv in attrs.items())
    if how in ('code', 'plain'):
        s = short()
        c = s.addElement(NEWID, 'New', base, attrs)
    elif how == 'xml':
        class Sch(core.Schema):
            BASE_CLASSES = dict(core.Schema.BASE_CLASSES, MineElement=base)
        s = Sch(io.StringIO('<Schema><MineElement name="New" id="0x4FFE"%s/></Schema>' % text))
        c = s['New']
    else:
        class Sch(core.Schema):
            ELEMENT_TYPES = dict(core.Schema.ELEMENT_TYPES, mine=base)
        s = Sch(io.StringIO('<table><element name="New" type="mine" id="0x4FFE"%s/></table>' % text))
        c = s['New']
    want = attr == '1' if attr is not None else own if own is not None else base.__mro__[0 if how == 'plain' else 1].precache
    require(issubclass(c, base) and c.precache is want, '%s of %s, precache %r, attribute %r: %r', how, tag, own, attr, c.precache)
    payload, _ = VALUES[M.KINDS[tag]]
    if tag == 'MasterElement':
        payload = b''
    st = io.BytesIO(M.id_bytes(NEWID) + bytes([0x80 | len(payload)]) + payload)
    el = next(iter(s.load(st)))
    v = obs.vs() and el.value if want else None
    st.seek(0)
    st.truncate()
    if want:
        el2 = el.value
        require(el2 is v, 'read again')
    else:
        try:
            require(el.value != VALUES[M.KINDS[tag]][1] or not payload, 'read ahead: %r', el.value)
        except Viol:
            raise
        except Exception:
            pass
    require(type(el) is c, 'read as %r', el)
    ctx.add('distinct_nontrivial')


def do_bad(ctx, tag, place, bad):
    """ A contradicting or incomplete definition is refused and changes nothing. """
    base = getattr(core, tag)
    other = core.UIntegerElement if base is not core.UIntegerElement else core.StringElement
    s = short()
    s.addElement(NEWID, 'New', base, {'multiple': '1', 'name': 'New'}, parent_of(s, place))
    ref = describe(s)
    p2 = parent_of(s, 'Cl')
    args = {'othertype': (NEWID, 'New', other, {'multiple': '1'}, p2), 'otherattr': (NEWID, 'New', base, {'multiple': '0'}, p2),
            'noname': (0x4FFD, None, base, {}, p2), 'noid': (None, 'Newer', base, {}, p2), 'badname': (0x4FFD, '9x', base, {}, p2),
            'strid': ('0x4FFD', 'Newer', base, {}, p2), 'emptyname?': (0x4FFD, '-', base, {}, p2), 'nameclash': (0x4FFD, 'New', other, {}, p2)}[bad]
    try:
        s.addElement(*args)
    except (TypeError, ValueError, KeyError):
        pass
    else:
        require(False, '%s %s: accepted', tag, bad)
    a = describe(s)
    require(a == ref, '%s %s: the refused definition changed the schema: %r', tag, bad, [(i, j) for i, j in zip(a, ref) if i != j][:1])
    ctx.add('distinct_nontrivial')
