""" C13: a document converted to XML and back has the same content. """
import io
import itertools
import math
import os
import struct
from xml.etree import ElementTree as ET
from mc.base import Viol, require, scratch
from mc import model as M, obs, docs
from checks import c09
from ebmlite import core, util, xml_codecs

ID = 'C13'
LEVEL = 'bounded_exhaustive'
RULE = ('Every document of the grammar is converted to XML with every combination of the four attribute options, every binary '
        'and Void encoding, serialised and parsed in several ways, and converted back; the bytes written are read by the '
        'reference parser and compared with what the original bytes hold. Non-trivial: documents with a non-empty payload.')
BOUNDS = dict(quick='all single elements over 96 values and positions, all forests of 2 elements over 22 leaves, of 3 over 8; 16 option sets x 5 encodings',
              thorough='also forests of 3 over 22 leaves, of 4 over 8, of 5 over 4; 16 option sets x 10 encodings x 5 serialisations')

TEXTS = ['a', '<&>"\'', ' lead', 'trail ', 'a  b', 'tab\tx', 'nl\nx', 'cr\rx', '\n', ' ', ']]>', '&amp;', '{}', 'None', '0',
         "b'x'", 'x' * 300, '%s', '\\n']
UNI = TEXTS + ['\xe9', '\u20ac', '\U0001f600', '\u2028', '\x85', '\ufeff', '\xa0', 'e\u0301', '\ufffd', '\u4e2d' * 50]
BINS = [b'', b'\0', b'a', b'ab', b'abc', b'\xff' * 57, bytes(range(256)), b'\n', b' ', b'[0]', b'x' * 58, b'\0' * 77, b'=', b'\x80']


def num(kind):
    out = []
    for w in range(9):
        if not w:
            out.append(b'')
            continue
        for v in (0, 1, 127, 128, 255, 256, (1 << (8 * w)) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1):
            if v < 1 << (8 * w):
                out.append(v.to_bytes(w, 'big'))
    return sorted(set(out), key=lambda b: (len(b), b))


def flo():
    out = [b'']
    for v in (0.0, -0.0, 1.5, -1e300, 5e-324, math.inf, -math.inf, math.nan, 1.7976931348623157e308, 0.1, 1e22, 123456789.125):
        out.append(struct.pack('>d', v))
        try:
            out.append(struct.pack('>f', v))
        except OverflowError:
            pass
    return out + [b'\x7f\xf8\0\0\0\0\0\1', b'\0\0\0\1', b'\x7f\x7f\xff\xff']


def dat():
    u = 1000
    return [(v * u).to_bytes(8, 'big', signed=True) for v in
            (0, 1, -1, 999999, 1000000, 86400 * 10**6, -10**15, 9 * 10**15, -9 * 10**15, 1577836799999999)] + [
                b'\0' * 7 + b'\1', b'\xff' * 8, (1999).to_bytes(8, 'big'), b'\x7f' + b'\xff' * 7, b'\x80' + b'\0' * 4 + b'\x04\0\0']


def singles():
    out = [('U', b, None) for b in num('u')] + [('I', b, None) for b in num('i')] + [('F', b, None) for b in flo()]
    out += [('D', b, None) for b in dat()]
    for nm, vals in (('S', [t for t in TEXTS if t.isprintable()]), ('Z', UNI), ('PZ', UNI[:3])):
        for t in vals:
            for pad in (b'', b'\0', b'\0' * 5, b'\0tail'):
                out.append((nm, t.encode() + pad, None))
        out += [(nm, b'', None), (nm, b'\0', None), (nm, b'\0\0\0', None)]
    for nm in ('B', 'PB', 'CRC-32', 0x4FFE, 0xFD, 0x1FEDCBA9):
        out += [(nm, b, None) for b in BINS]
    out += [('Void', b'\xff' * n, None) for n in (0, 1, 2, 126, 127, 128, 300, 16382, 16383, 16384, 16385, 65535, 65536, 70001)]
    out += [('Z', b'z' * 16383, None), ('S', b's' * 16384, None), ('B', bytes(range(256)) * 64, None), (0x4FFE, b'\1' * 65537, None)]
    out += [('Void', b'data\0', None)]
    out += [('L4', b'\0\0\0\5', None), ('LS', b'abcdef', None), ('LS', b'ab\0\0\0\0', None), ('LB', b'\1\2\3\4\5', None),
            ('LI', b'\xff\xff\xfe', None), ('L4F', docs.F32, None), ('LZ', 'h\xe9\0\0\0\0'.encode(), None),
            ('LU', b'', None), ('LF', docs.F64, None), ('LD', docs.DATE, None)]
    for w in range(1, 9):
        out += [('U', b'\1', w), ('Z', b'x', w), ('B', b'x', w), ('Void', b'\xff', w), ('Grp', [('U', b'\1', w)], w), ('EM', [], w),
                (0x4FFE, b'x', w)]
    out += [('Grp', [('B', b'x' * n, None)], None) for n in (120, 122, 123, 124, 125, 126, 127, 128, 300, 16380, 16384)]
    return out


LEAVES = [s for s in docs.LEAVES]
CODECS = [('base64', 'ignore'), ('hex', 'ignore'), (('b', 0), 'base64'), (('h', 3, 8, True), 'hex'), (('h', 2, 0, False), ('b', 5)),
          (('b', 1), 'ignore'), (('b', 77), ('h', 1, 1, False)), (('h', 1, 1, True), 'ignore'), (('h', 8, 7, False), 'base64'), (('b', None), 'hex')]
OPTS = list(itertools.product((True, False), repeat=4))
SER = ['ascii', 'utf-8', 'unicode', 'tree', 'indent', 'file', 'utf-16']


def codec(c):
    if isinstance(c, str):
        return c
    if c[0] == 'b':
        return xml_codecs.Base64Codec(cols=c[1])
    return xml_codecs.HexCodec(width=c[1], cols=c[2], offsets=c[3])


def serial(x, ser, ctx):
    if ser == 'tree':
        return x
    if ser == 'indent':
        ET.indent(x)
        return io.BytesIO(ET.tostring(x))
    if ser == 'unicode':
        return io.StringIO(ET.tostring(x, encoding='unicode'))
    if ser == 'file':
        path = os.path.join(scratch(), 'c13-%d.xml' % os.getpid())
        ET.ElementTree(x).write(path, encoding='utf-8', xml_declaration=True)
        return path
    if ser == 'ascii':
        return io.BytesIO(ET.tostring(x))
    return io.BytesIO(ET.tostring(x, encoding=ser, xml_declaration=True))


def has_unknown(nodes):
    return any(n.kind == 'unknown' for n in M.walk(nodes))


def norm(c):
    """ Negative zero equals zero. """
    return tuple(norm(x) if isinstance(x, tuple) else '0.0' if x == '-0.0' else x for x in c)


def sizes(nodes):
    return [n.size for n in M.walk(nodes) if n.children is None]


def evaluate(case, ctx):
    spec, ncod, sers, frag = case
    if isinstance(spec, tuple) and spec and spec[0] == 'raw':
        data = RAW[spec[1]]()
    else:
        data, _ = M.build(spec)
    nodes, _ = M.parse(data, M.VS)
    want = [norm(obs.node_content(n)) for n in nodes]
    frag = frag and nodes[0].kind != 'unknown'
    unk = has_unknown(nodes)
    wantsizes = sizes(nodes)
    if len(data) > 8:
        ctx.add('distinct_nontrivial')
    doc = obs.vs().load(io.BytesIO(data), headers=True)
    src = doc[0] if frag else doc
    if frag:
        nodes, want, wantsizes = nodes[:1], want[:1], sizes(nodes[:1])
    k = 0
    for off, siz, typ, ids in OPTS:
        if unk and not ids:
            continue
        for bc, vc in CODECS[:ncod]:
            ser = SER[sers[k % len(sers)]]
            k += 1
            x = util.toXml(src, offsets=off, sizes=siz, types=typ, ids=ids, binary_codec=codec(bc), void_codec=codec(vc))
            what = 'offsets=%s sizes=%s types=%s ids=%s codec=%r void=%r %s' % (off, siz, typ, ids, bc, vc, ser)
            out = io.BytesIO()
            try:
                n = util.xml2ebml(serial(x, ser, ctx), out, obs.vs(), headers=False)
            except Exception as e:
                raise Viol('%s: converting back raised %s: %s\n%s' % (what, type(e).__name__, e, ET.tostring(x)[:600]))
            back = out.getvalue()
            require(n == len(back), '%s: returned %r for %d bytes', what, n, len(back))
            try:
                got, _ = M.parse(back, M.VS)
                r = [norm(obs.node_content(g)) for g in got]
            except (M.Stop, M.Undecodable) as e:
                raise Viol('%s: the result %r is malformed: %s' % (what, back[:100], e))
            require(r == want, '%s: %r became %r\n%s', what, want, r, ET.tostring(x)[:600])
            if siz:
                require(sizes(got) == wantsizes, '%s: payload sizes %r became %r', what, wantsizes, sizes(got))
            ctx.add('evaluations')


RAW = [c09.d1, c09.d2,
       lambda: c09.inf('Seg', c09.inf('Cl', c09.el(('U', b'\1', None), ('S', b'x\0', None)), 8) + c09.inf('Cl', b'') +
                       c09.inf('Grp', c09.inf('Sub', c09.el(('B', b'q' * 40, None)), 2), 4), 3),
       lambda: c09.inf('EM', b'', 2) + c09.el(('U', b'', None)),
       lambda: M.build([('Grp', LEAVES[:12], None), ('Seg', LEAVES, 8)])[0]]


def wrap(spec, how):
    return ([spec], [('Grp', [spec, ('U', b'\2', None)], None)], [docs.HEADER, ('B', b'x', 2), spec, ('Seg', [('Cl', [spec], 8)], 3)],
            [('Grp', [('U', b'\2', None), ('S', b'x', None), ('Sub', [('U', b'\1', None), spec, spec, spec], None), spec], None), ('EM', [], None), spec])[how]


def shards(tier):
    s = [('single', i) for i in range(16)] + [('raw',), ('ext',)]
    s += [('n', 2, 'all', i) for i in range(8)] + [('n', 3, 'small', i) for i in range(8)]
    if tier == 'thorough':
        s += [('n', 3, 'all', i) for i in range(32)] + [('n', 4, 'small', i) for i in range(32)] + [('n', 5, 'tiny', i) for i in range(32)]
    return s


def cases(shard, tier):
    ncod = 5 if tier == 'quick' else 10
    sers = tuple(range(7))
    if shard[0] == 'raw':
        for i in range(len(RAW)):
            for fr in (False, True):
                yield (('raw', i), ncod, sers, fr)
    elif shard[0] == 'ext':
        for f in docs.extremes():
            # (the lowest date of all is lower than any with whole microseconds, and cannot be written; a StringElement holds printable text)
            if not any(repr(x)[:-6] in repr(f) for x in (('D', b'\x80' + bytes(7), None), ('S', b' \t\r\n ', None))):
                yield (f, ncod, sers, False)
    elif shard[0] == 'single':
        ss = singles()
        for i in range(shard[1], len(ss), 16):
            for how in range(4):
                if tier == 'quick' and how == 1:
                    continue
                yield (wrap(ss[i], how), ncod, sers, False)
            yield (wrap(ss[i], 1), ncod, sers, True)
    else:
        _, n, al, part = shard
        leaves = dict(all=LEAVES, small=docs.SMALL, tiny=docs.TINY)[al]
        masters = docs.MASTERS if al == 'all' else docs.MASTERS[:2]
        parts = 8 if tier == 'quick' or n < 3 or (n == 3 and al == 'small') else 32
        for i, f in enumerate(M.forests(n, masters, leaves)):
            if i % parts == part:
                if n == 2:
                    yield (f, ncod, sers, False)
                else:
                    yield (f, 1 + i % 3 if tier == 'quick' else 3, (i % 7, (i + 3) % 7), bool(i % 5 == 0))
