""" C15: binary-to-text codecs are lossless for every layout. """
import io
import itertools
import re
from xml.etree import ElementTree as ET
from mc.base import Viol, require
from ebmlite import xml_codecs

ID = 'C15'
LEVEL = 'bounded_exhaustive'
RULE = ('The full product of data x layout options x indentation x starting offset is encoded as text and to a stream and '
        'decoded from text, bytes and through XML, to a value and to a stream; layout is checked line by line. '
        'Non-trivial: non-empty data.')
BOUNDS = dict(quick='every length 0-70, up to 5000 for long lines, and 8 special contents; hex: 16 column counts x 9 widths x labels x 4 indents x 3 offsets; base64: 26 column counts x 4 indents',
              thorough='every length 0-300, every single byte, every pair of 16 bytes; hex: 40 x 13 x 2 x 6 x 6; base64: 90 x 6')
CASE_LIMIT = 150
INDENTS = ['', ' ', '\t', '    \t ', b'  ', '\u3000']
OFFSETS = [0, 999999, 12345678, 5, 999990, 10**12]
HCOLS = [0, None, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64] + list(range(9, 31))
LONG = [2049, 4096, 5000, 2047, 2048, 10000, 70000]
BCOLS = [0, None, 76, 1, 2, 3, 4, 5, 7, 8, 16, 57, 60, 64, 72, 75, 77, 78, 80, 95, 100, 1000, 6, 9, 11, 13] + list(range(14, 74))


def data_of(d):
    if d[0] == 'len':
        return bytes((i * 37 + 11) % 256 for i in range(d[1]))
    if d[0] == 'zero':
        return b'\0' * d[1]
    if d[0] == 'ff':
        return b'\xff' * d[1]
    return bytes(d[1:])


PAIR = [0, 1, 9, 10, 13, 32, 43, 47, 60, 61, 91, 93, 127, 128, 254, 255]


def data(tier):
    n = 71 if tier == 'quick' else 301
    yield from (('len', i) for i in range(n))
    yield from (('len', i) for i in ((255, 256, 1000) if tier == 'quick' else (1024, 5000)))
    yield from (('len', i) for i in (LONG[:3] if tier == 'quick' else LONG))
    yield from (('zero', 1), ('zero', 40), ('ff', 3), ('ff', 57), ('b', 0x5b), ('b', 0x5b, 0x30, 0x5d), ('b', 0x20, 0x0a), ('b', 0x3d, 0x3d))
    if tier == 'thorough':
        yield from (('b', i) for i in range(256))
        yield from (('b', i, j) for i in PAIR for j in PAIR)


def shards(tier):
    return [(c, i) for c in ('hex', 'base64') for i in range(32)]


def cases(shard, tier):
    for i, d in enumerate(data(tier)):
        if i % 32 == shard[1]:
            yield (shard[0], d)


class Sink:
    """ A stream that can do no more than it must: it writes. Like an empty collection, it is not true. """
    def __init__(self, empty):
        self.parts = empty

    def write(self, x):
        self.parts += x
        return len(x)

    def getvalue(self):
        return self.parts

    def __len__(self):
        return 0


def decodes(cls, text, want, what):
    """ Every way of decoding the text. """
    for t in (text, text.encode('utf8')):
        r = cls.decode(t)
        require(bytes(r) == want, '%s: %r decodes as %r, not %r', what, text[:300], bytes(r)[:100], want[:100])
        for start in (b'<<', b'', b'>'):
            out = io.BytesIO() if start != b'>' else Sink(b'')
            out.write(start)
            n = cls.decode(t, stream=out)
            require(out.getvalue() == start + want, '%s: decoded to a stream: %r', what, out.getvalue()[:100])
            require(n == len(want), '%s: decoding %d bytes to a stream returned %r', what, len(want), n)


def encodes(codec, raw, kw, what):
    text = codec.encode(raw, **kw)
    require(isinstance(text, str), '%s: encode returned %r', what, text)
    for start in ('<<', '', '>'):
        out = io.StringIO() if start != '>' else Sink('')
        out.write(start)
        n = codec.encode(raw, stream=out, **kw)
        require(out.getvalue() == start + text, '%s: written to a stream %r, as text %r', what, out.getvalue()[:200], text[:200])
        require(n == len(text), '%s: writing %d characters returned %r', what, len(text), n)
    require(codec.encode(bytearray(raw), **kw) == text, '%s: a bytearray is encoded differently', what)
    require(codec.encode(raw, **kw) == text, '%s: encoding again gives something else', what)
    return text


def lines(text, indent, what):
    """ Lines of the text without indentation. """
    indent = indent.decode() if isinstance(indent, bytes) else indent
    for ln in text.split('\n'):
        if not ln.strip():
            continue
        require(ln.startswith(indent), '%s: line %r is not indented', what, ln)
        yield ln[len(indent):]


def evaluate(case, ctx):
    which, d = case
    raw = data_of(d)
    quick = ctx.tier == 'quick' or len(raw) > 300
    n = 0
    if which == 'hex':
        for cols in HCOLS[:16 if quick else 40] if len(raw) < 2000 else (None, 32, 100, 5000, 10**6):
            for width in (1, 2, 3000, 4096, 10**6) if len(raw) >= 2000 else (1, 2, 3, 4, 8, 5, 16, 33, 100, 6, 7, 32, 64)[:9 if quick else 13]:
                for labels in (True, False):
                    codec = xml_codecs.HexCodec(width=width, cols=cols, offsets=labels)
                    for indent in INDENTS[:4 if quick else 5] if len(raw) < 2000 else ('', '  ')[:2 if cols else 1]:
                        for off in OFFSETS[:3 if quick else 6] if len(raw) < 2000 else (0, 999990)[:2 if labels and cols else 1]:
                            what = 'hex width=%d cols=%r offsets=%s indent=%r offset=%d' % (width, cols, labels, indent, off)
                            text = encodes(codec, raw, dict(indent=indent, offset=off), what)
                            decodes(xml_codecs.HexCodec, text, raw, what)
                            n += 1
                            if not cols:
                                require('\n' not in text and '\r' not in text, '%s: a continuous block with line breaks: %r', what, text[:200])
                                require('[' not in text, '%s: a continuous block with labels', what)
                                body = [text]
                            else:
                                body = list(lines(text, indent, what))
                            pos = 0
                            for ln in body:
                                m = re.match(r'\[(\d+)\] ', ln)
                                if labels and cols:
                                    require(m is not None and int(m.group(1)) == off + pos, '%s: line %r at byte %d', what, ln[:60], off + pos)
                                else:
                                    require(m is None, '%s: unexpected label %r', what, ln[:60])
                                words = ln[m.end() if m else 0:].split()
                                require(all(len(w) <= 2 * width for w in words) and all(len(w) == 2 * width for w in words[:-1])
                                        or bool(cols) and cols % width, '%s: words %r', what, words)
                                k = sum(map(len, words)) // 2
                                require(not cols or k <= cols, '%s: %d bytes in a line', what, k)
                                pos += k
    else:
        for cols in BCOLS[:26 if quick else 86] if len(raw) < 2000 else (None, 76, 60, 1000, 5000, 10**6):
            codec = xml_codecs.Base64Codec(cols=cols)
            for indent in INDENTS[:5]:
                what = 'base64 cols=%r indent=%r' % (cols, indent)
                if cols and isinstance(indent, bytes) and cols != 76 and quick and len(raw) % 5:
                    continue
                text = encodes(codec, raw, dict(indent=indent, offset=7), what)
                decodes(xml_codecs.Base64Codec, text, raw, what)
                n += 1
                if not cols:
                    require('\n' not in text and '\r' not in text, '%s: a continuous block with line breaks: %r', what, text[:200])
                else:
                    for ln in lines(text, indent, what):
                        require(len(ln) <= cols, '%s: line of %d', what, len(ln))
        require(xml_codecs.Base64Codec().encode(raw) == xml_codecs.Base64Codec(cols=76).encode(raw), 'default columns')
    cls = xml_codecs.BINARY_CODECS[which]
    require(cls.NAME == which, 'codec %r is called %r', which, cls.NAME)
    x = ET.Element('x')
    x.text = cls().encode(raw)
    y = ET.fromstring(ET.tostring(x)).text
    require(bytes(cls.decode(y)) == raw, 'through XML: %r', y)
    for empty in (None, '', b'', ' \n ', '\n'):
        r = cls.decode(empty)
        require(bytes(r) == b'', 'decoding %r gives %r', empty, r)
        out = io.BytesIO()
        require(cls.decode(empty, stream=out) == 0 and out.getvalue() == b'', 'decoding %r to a stream', empty)
    ctx.add('evaluations', n)
    if raw:
        ctx.add('distinct_nontrivial', n)
