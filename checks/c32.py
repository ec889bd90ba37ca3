""" C32: threads working on data of their own never disturb each other. """
import datetime
import io
import itertools
from xml.etree import ElementTree as ET
from mc.base import Viol, require
from mc import sched, model as M

sched.install()
from ebmlite import core, util, encoding, decoding, xml_codecs      # noqa: E402
from mc import obs                                  # noqa: E402
obs.core = core                                     # the copy that uses the scheduler's locks
obs._vs = None

ID = 'C32'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real code: all schedules with a bounded number of preemptions under a controlled scheduler, against the results of each thread alone'
RULE = ('Two (or three) threads each read, encode, convert, print or verify data of their own (of the same shape, with different contents) with a shared schema and shared codecs that are fresh in every execution. '
        'Every schedule up to the preemption bound is executed, switching at every line that can touch something shared ("line"), or that touches an attribute assigned after construction or a module variable ("hot"); '
        'every result or error must be what the thread gets alone, and the inputs must be unchanged.')
BOUNDS = dict(quick='26 operations, each with itself on other data at 1 preemption (line), all pairs at 1 preemption (hot); 12 operations on the smallest documents, each with itself at 2 preemptions (hot); 13 basic functions in pairs at 2 preemptions (line); 3 threads of the basic functions at 1',
              thorough='26 operations in all pairs at 1 preemption (line), each with itself on other data at 2 (hot); 12 operations on the smallest documents, each with itself at 2 preemptions (line), in pairs at 2 (hot); 13 basic functions in pairs at 3 preemptions (line); 3 threads of the basic functions at 2')
CASE_LIMIT = 900
ASSUMPTIONS = ['threads are switched only inside ebmlite/; calls into io and ElementTree are atomic']

XML = '''<Schema><MasterElement name="EBML" id="0x1A45DFA3"><UIntegerElement name="EBMLVersion" id="0x4286" default="1"/><StringElement name="DocType" id="0x4282" default="own"/></MasterElement>
<BinaryElement name="Void" id="0xEC" global="1" multiple="1"/><MasterElement name="Grp" id="0xA0" multiple="1"><UIntegerElement name="U" id="0x81" multiple="1"/><IntegerElement name="I" id="0x4201" multiple="1"/>
<FloatElement name="F" id="0x4202" multiple="1"/><StringElement name="S" id="0x83" multiple="1"/><UnicodeElement name="Z" id="0x2A0001" multiple="1"/><DateElement name="D" id="0x1A000001" multiple="1"/>
<BinaryElement name="B" id="0x84" multiple="1"/><MasterElement name="Grp" id="0xA0"/></MasterElement></Schema>'''
REF = M.RefSchema(XML)
DATES = [datetime.datetime(2019, 12, 31, 23, 59, 59, 999999), datetime.datetime(1990, 2, 3, 4, 5, 6, 7)]


def specs(w):
    c = 'abc'[w]
    return [('Grp', [('U', bytes([5 + w]), None), ('S', c.encode() * (2 + w), None), ('B', bytes([200 + w, w]), 2)], -1 if w else None), (0x4FFE - w, bytes([w, 1]), None), ('Void', bytes(2 + w), None)]


DATA = [M.build(specs(w), REF)[0] for w in range(3)]
SMALLDATA = [M.build([('U', bytes([5 + w]), None), ('S', b'abc'[w:w + 2], None)], REF)[0] for w in range(3)]
DICT = [{'Grp': [{'U': [5 + w, 300 * (w + 1)], 'S': 'abc'[w] * (2 + w)}, {'B': bytes([9, w])}]} for w in range(3)]
LIST = [[('Grp', [('Z', '\xe9\u20ac'[w % 2]), ('D', DATES[w % 2]), ('F', 1.5 + w), ('I', -5 - w)]), ('U', w)] for w in range(3)]
BADDICT = [{'Grp': {'U': 1, ('No%d' % w): 2}} for w in range(3)]
XMLDOC = ['<OwnDocument><Grp><U value="%d"/><S value="%s"/><B encoding="hex">%02x %02x</B></Grp><UnknownElement id="0x%X" encoding="base64">%s</UnknownElement></OwnDocument>' % (
    w + 3, 'pqr'[w] * (w + 1), 255 - w, w, 0x4FFD - w, ['AA==', 'AQI=', 'AwQF'][w]) for w in range(3)]
BADXML = ['<OwnDocument><Grp><U value="%d"/><Nope%d/></Grp></OwnDocument>' % (w, w) for w in range(3)]
PAY = [bytes([i * (w + 1) % 256 for i in range(5 + w)]) for w in range(3)]


MODULES = [core, util, encoding, decoding, xml_codecs]
CONTAINERS = (dict, list, set, bytearray)
SIMPLE = CONTAINERS + (int, str, bytes, float, tuple, type(None))


def owners():
    for m in MODULES:
        yield m
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                yield v


def snapshot():
    return [(o, {k: (v, v.copy() if isinstance(v, CONTAINERS) else None) for k, v in vars(o).items() if not k.startswith('__') and isinstance(v, SIMPLE)}) for o in owners()]


def restore(snap):
    """ Everything process-wide in the code under test as it was when imported, so that every execution starts cold. """
    for o, had in snap:
        for k, v in list(vars(o).items()):
            if hasattr(v, 'cache_clear'):
                v.cache_clear()
            if k.startswith('__') or not isinstance(v, SIMPLE):
                continue
            if k not in had:
                delattr(o, k)
                continue
            old, copy = had[k]
            if v is not old:
                setattr(o, k, old)
            if copy is not None and old != copy:
                if isinstance(old, (dict, set)):
                    old.clear()
                    old.update(copy)
                else:
                    old[:] = copy


SNAP = snapshot()


class World:
    def __init__(self):
        restore(SNAP)
        self.s = core.Schema(io.StringIO(XML), 'own')
        self.hex = xml_codecs.HexCodec(width=2, cols=4)
        self.b64 = xml_codecs.Base64Codec(cols=8)
        self.plain = [xml_codecs.Base64Codec(), xml_codecs.HexCodec(), xml_codecs.Base64Codec(cols=None), xml_codecs.HexCodec(cols=None)]
        self.mem = None


def tostr(el):
    return ET.tostring(el)


def fresh(data):
    return io.BytesIO(data)


def pprinted(w, i):
    out = io.StringIO()
    util.pprint(w.s.load(fresh(DATA[i]), headers=True), out=out, binary_codec=w.hex, void_codec=w.b64)
    return out.getvalue()


def x2e(w, i, **kw):
    out = io.BytesIO()
    n = util.xml2ebml(io.StringIO(XMLDOC[i]), out, w.s, **kw)
    return n, out.getvalue()


def codec(c, i):
    out = io.StringIO()
    n = c.encode(PAY[i], stream=out, indent='  ' * i, offset=i * 10)
    return n, out.getvalue(), c.decode(out.getvalue())


def written(w, i, **kw):
    out = io.BytesIO()
    w.s.encode(out, DICT[i], **kw)
    return out.getvalue()


def interleaved(w, i):
    """ Two documents of one thread, read in turn. """
    a, b = w.s.loads(DATA[i]), w.s.loads(SMALLDATA[i])
    return [(x.name, x.offset, x.size, y.name, y.value) for x, y in zip(a, b)]


OPS = {
    'tree': lambda w, i: [obs.tree(e) for e in w.s.load(fresh(DATA[i]), headers=True)],
    'sizes': lambda w, i: [(e.size, len(e) if isinstance(e, core.MasterElement) else None) for e in w.s.loads(DATA[i])],
    'raw': lambda w, i: [(bytes(e.getRaw()), bytes(e.getRawValue())) for e in w.s.loads(DATA[i])],
    'index': lambda w, i: (lambda d: (obs.tree(d[0]), d[1].id, len(d), d.type, d.name))(w.s.load(fresh(DATA[i]), name='n%d' % i)),
    'dump': lambda w, i: w.s.loads(DATA[i]).dump(),
    'flat': lambda w, i: [(e.name, e.id, e.offset) for e in util.flatiter(w.s.loads(DATA[i]), 2)],
    'equal': lambda w, i: (lambda a, b: (a == b, a != b, a == a))(w.s.loads(DATA[i])[1], w.s.loads(DATA[0])[1]),
    'verify': lambda w, i: w.s.verify(SMALLDATA[i]),
    'noverify': lambda w, i: w.s.verify(DATA[i]),
    'encode': lambda w, i: w.s.encodes(DICT[i]),
    'encodelist': lambda w, i: w.s.encodes(LIST[i]),
    'encodehead': lambda w, i: written(w, i, headers=True),
    'encodebad': lambda w, i: w.s.encodes(BADDICT[i]),
    'element': lambda w, i: [bytes(w.s['Grp'].encode({'U': i}, lengthSize=2 + i, infinite=bool(i % 2))), bytes(w.s['S'].encode('x' * i, length=4 + i)), bytes(w.s['U'].encode(i + 1, lengthSize=3))],
    'toxml': lambda w, i: tostr(util.toXml(w.s.loads(DATA[i]), binary_codec=w.hex, void_codec=w.b64)),
    'toxmldefault': lambda w, i: tostr(util.toXml(w.s.loads(DATA[i]), offsets=bool(i), sizes=not i)),
    'fromxml': lambda w, i: x2e(w, i, sizeLength=i + 2),
    'fromxmlplain': lambda w, i: x2e(w, i, headers=False),
    'fromxmlbad': lambda w, i: util.xml2ebml(ET.fromstring(BADXML[i]), io.BytesIO(), w.s),
    'loadxml': lambda w, i: [obs.content(e) for e in util.loadXml(io.StringIO(XMLDOC[i]), w.s, ':memory:')],
    'print': pprinted,
    'ids': lambda w, i: util.createID(w.s, 'abcd'[i], exclude=(0x82, 0x4080 + i), count=3 + i),
    'interleaved': interleaved,
    'texts': lambda w, i: [c.encode(PAY[i] * 2, indent=' ' * i, offset=i * 7) for c in (w.b64, w.hex)],
    'textsdefault': lambda w, i: [c.encode(PAY[i] * (12 * i + 1)) for c in w.plain] + [xml_codecs.IgnoreCodec().encode(PAY[i])],
    'cutoff': lambda w, i: [obs.tree(e) for e in w.s.loads(DATA[i][:-1 - i])],
}
BASIC = {
    'hex': lambda w, i: codec(w.hex, i),
    'base64': lambda w, i: codec(w.b64, i),
    'encsize': lambda w, i: [encoding.encodeSize(100 * (i + 1), 2 + i), encoding.encodeSize(7 + i), encoding.encodeId(0x4FFE - i)],
    'encnum': lambda w, i: [encoding.encodeUInt(300 + i), encoding.encodeInt(-300 - i, 4), encoding.encodeFloat(1.5 + i, 8), encoding.encodeDate(DATES[i % 2])],
    'encpart': lambda w, i: [encoding.encodeUInt(5.5 + 195 * i), encoding.encodeInt(-7.25 - i, 2)],
    'enctext': lambda w, i: [encoding.encodeString('abc'[i] * 3, 5), encoding.encodeUnicode('\xe9\u20ac\xe8'[i], 6), encoding.encodeBinary(PAY[i], 9)],
    'decsize': lambda w, i: [decoding.readElementSize(fresh(M.size_desc(100 * i + 5, 2))), decoding.readElementID(fresh(M.id_bytes(0x4FFE - i)))],
    'decnum': lambda w, i: [decoding.readUInt(fresh(bytes([i, 7])), 2), decoding.readInt(fresh(bytes([255 - i, 7, 1])), 3), decoding.readFloat(fresh(b'\x3f\xc0\0' + bytes([i])), 4), decoding.readDate(fresh(M.date_payload(DATES[i % 2])))],
    'dectext': lambda w, i: [decoding.readString(fresh(b'abc'[i:] + b'\0x'), 3), decoding.readUnicode(fresh('\xe9\u20ac'[i % 2].encode()), 2 + i % 2)],
    'validate': lambda w, i: util.validateID(0x4FFE - i),
    'invalid': lambda w, i: util.validateID(0x3FFF + i),
    'refused': lambda w, i: encoding.encodeUInt(70000 + i, 2),
    'uel': lambda w, i: w.s['U'].encode([i, i + 1]),
}
TINY = [bytes([0xA0, 0x83, 0x81, 0x81, 5 + w]) for w in range(3)]
TINYXML = ['<Grp><U value="%d"/></Grp>' % (w + 7) for w in range(3)]


def tinyprint(w, i):
    out = io.StringIO()
    util.pprint(w.s.loads(TINY[i]), out=out)
    return out.getvalue()


def tinywrite(w, i):
    out = io.BytesIO()
    return util.xml2ebml(ET.fromstring(TINYXML[i]), out, w.s, headers=False), out.getvalue()


# the operations on as little as there can be, for more switches
SMALL = {
    'headers': lambda w, i: w.s.encodes([('U', i)], headers=True),
    'tinytree': lambda w, i: [obs.tree(e) for e in w.s.loads(TINY[i])],
    'tinydump': lambda w, i: w.s.loads(TINY[i]).dump(),
    'tinyxml': lambda w, i: tostr(util.toXml(w.s.loads(TINY[i]))),
    'tinyprint': tinyprint,
    'tinywrite': tinywrite,
    'tinyverify': lambda w, i: w.s.verify(TINY[i]),
    'tinyflat': lambda w, i: [(e.name, e.offset, e.value if e.id == 0x81 else None) for e in util.flatiter(w.s.loads(TINY[i]))],
    'tinyencode': lambda w, i: w.s.encodes({'Grp': {'U': [i, i + 3]}}),
    'tinyunknown': lambda w, i: [(e.id, e.size, bytes(e.value)) for e in w.s.loads(bytes([0xF0 + i, 0x80 | i]) + bytes(i))],
    'tinybase64': lambda w, i: w.plain[0].encode(PAY[i], indent=' ' * i),
    'tinyblock': lambda w, i: w.plain[3].encode(PAY[i]),
}


def run(op, w, i):
    """ The result, or the error, in comparable form. """
    try:
        r = (OPS.get(op) or BASIC.get(op) or SMALL[op])(w, i)
    except Viol:
        raise
    except Exception as e:
        return ('error', type(e).__name__, str(e))
    return repr(r)


_alone = {}


def alone(op, i):
    if (op, i) not in _alone:
        _alone[op, i] = run(op, World(), i)
    return _alone[op, i]


def all_cases(tier):
    deep = tier == 'thorough'
    for op in OPS:
        yield (1, 'line', ((op, 0), (op, 1)))
        if deep:
            yield (2, 'hot', ((op, 0), (op, 1)))
    for op in SMALL:
        yield (2, 'line' if deep or op in ('tinybase64', 'tinyblock') else 'hot', ((op, 0), (op, 1)))
    for a, b in itertools.combinations(SMALL if deep else (), 2):
        yield (2, 'hot', ((a, 0), (b, 1)))
    for a, b in itertools.combinations(OPS, 2):
        yield (1, 'line' if deep else 'hot', ((a, 0), (b, 1)))
    for a, b in itertools.combinations_with_replacement(BASIC, 2):
        yield (3 if deep else 2, 'line', ((a, 0), (b, 1)))
    for t in itertools.combinations_with_replacement(BASIC, 3):
        if deep or t[0] == t[1] or t[1] == t[2]:
            yield (2 if deep else 1, 'line', tuple((x, k) for k, x in enumerate(t)))


def shards(tier):
    return list(range(64))


def cases(shard, tier):
    for i, c in enumerate(all_cases(tier)):
        if i % 64 == shard:
            yield c


def evaluate(case, ctx):
    bound, mode, progs = case
    want = [alone(op, i) for op, i in progs]
    inputs = repr((DICT, LIST, BADDICT, DATA, PAY))

    def make():
        w = World()
        return [lambda op=op, i=i: run(op, w, i) for op, i in progs], w

    def check(x, w):
        for t, (op, i), exp in zip(x.ts, progs, want):
            if t.error is not None:
                raise Viol('thread %d (%s) failed with %s: %s' % (t.i, op, type(t.error).__name__, t.error))
            require(t.result == exp, 'thread %d: %s gave %s, alone %s', t.i, op, t.result, exp)
        require(repr((DICT, LIST, BADDICT, DATA, PAY)) == inputs, 'the inputs have changed')
        for op, i in progs:
            again = run(op, w, i)
            require(again == alone(op, i), 'afterwards %s gives %s, alone %s', op, again, alone(op, i))

    sched.explore(make, check, bound, mode, ctx)
    ctx.add('scenarios')


def conclude(n, sets, tier):
    if n.get('schedules', 0) < 10 * n.get('scenarios', 0):
        yield ('few',), 'only %r schedules in %r scenarios: nothing interleaves' % (n.get('schedules'), n.get('scenarios'))
