""" C04: text and binary payloads survive encoding, padding and truncation. """
import io
import itertools
import warnings
from mc.base import Viol, require
from mc import model as M, obs
from ebmlite import encoding, decoding

ID = 'C04'
LEVEL = 'exploration'
RULE = ('Every string up to length L over an alphabet of representative bytes / characters (printable ends, control, NUL, '
        'DEL, 2-, 3- and 4-byte characters), every one of the 256 bytes / 0x110000 code points alone, every string of up to 3 (thorough 4) of 33 characters that text processing tends to change (line breaks, blanks, byte order marks, combining and case-changing characters), and patterned strings '
        'of every length up to P, the same followed by one or more NUL and more text, times every explicit length from 0 to the payload length + 3; as built-in and as derived types; through the encode/read '
        'functions and through element classes in a document. Non-trivial: a payload accepted and read back.')
BOUNDS = dict(quick='L=4 (8-symbol alphabets), P=300', thorough='L=5, P=2000; every explicit length for every code point')
BIN = (0x00, 0x01, 0x20, 0x41, 0x7e, 0x80, 0xc3, 0xff)
CHARS = 'A ~\x7f\x1f\xe9\u20ac\U0001f40d'
# characters that text processing tends to change: line breaks, blanks, marks, cases and compositions
ODD = '\r\n\t\v\f\x1c\x85\xa0\u2028\u2029\ufeff\u200d\u0301\xe9e\xdf\u0130\u017f\ufb01\uff21\u212b\ufffd\ufffe\uffff\U0001f1e6 \\"\'&<%?'
PREFIX = {'thorough': 2, 'quick': 1}


def shards(tier):
    p = PREFIX[tier]
    s = [('bin', t) for t in itertools.product(range(8), repeat=p)]
    s += [('str', t) for t in itertools.product(range(8), repeat=p)]
    s += [('short',)]
    s += [('cp', a) for a in range(0, 0x110000, 0x2000)]
    s += [('odd', i) for i in range(len(ODD))]
    s += [('byte',), ('len',), ('bad',), ('read',), ('nul',)]
    return s


def cases(shard, tier):
    k = shard[0]
    L = 4 if tier == 'quick' else 5
    if k in ('bin', 'str'):
        pre = shard[1]
        for n in range(0, L - len(pre) + 1):
            for t in itertools.product(range(8), repeat=n):
                yield (k, pre + t)
    elif k == 'short':
        yield ('bin', ())
        yield ('str', ())
        if PREFIX[tier] == 2:
            for i in range(8):
                yield ('bin', (i,))
                yield ('str', (i,))
    elif k == 'cp':
        yield (k, shard[1], tier)
    elif k == 'odd':
        for n in range(0, 3 if tier == 'quick' else 4):
            for t in itertools.product(ODD, repeat=n):
                yield ('odd', ODD[shard[1]] + ''.join(t))
    elif k == 'len':
        top = 300 if tier == 'quick' else 2000
        for n in range(0, top):
            yield ('len', n)
        for n in (126, 127, 128, 16382, 16383, 16384, 65535, 65536, 2097150, 2097151):
            yield ('len', n)
    elif k == 'read':
        for t in itertools.product(range(8), repeat=3 if tier == 'quick' else 4):
            yield ('read', t)
    elif k == 'nul':
        for n in list(range(0, 300 if tier == 'quick' else 2000)) + [4095, 4096, 65535, 65536]:
            yield ('nul', n)
    else:
        yield shard


class Text(str):
    """ Text of an application's own type. """


class Data(bytes):
    pass


class Buffer(bytearray):
    pass


def get(name, data):
    """ Value of the first of the elements encoded; the second must survive. """
    els = list(obs.load(bytes(data) + b'\x81\x81\x07'))
    require(len(els) == 2 and els[0].name == name and els[1].value == 7,
            'the element following %s %r is lost: %r', name, bytes(data)[:40], els)
    return els[0]


def binary(b, lens, ctx, el=True):
    for typ in (bytes, bytearray, Data, Buffer):
        v = typ(b)
        require(bytes(encoding.encodeBinary(v)) == b, 'encodeBinary(%r) changed the data', v)
        for n in lens:
            ctx.add('evaluations')
            try:
                r = bytes(encoding.encodeBinary(v, n))
            except (ValueError, TypeError):
                require(len(b) > n, 'encodeBinary(%r, %d) refused', v, n)
                continue
            require(r == b + b'\0' * (n - len(b)), 'encodeBinary(%r, %d) = %r', v, n, r)
            ctx.add('distinct_nontrivial')
        require(bytes(v) == b, 'the argument was changed')
    if not el:
        return
    for name in ('B', 'PB', 'LB'):
        fixed = M.VS.byName[name].length
        for typ, n in itertools.product((bytes, Data, Buffer) if len(b) < 4 else (bytes,), [None] + list(lens)):
            ctx.add('evaluations')
            eff = fixed if n is None else n
            try:
                d = obs.vs()[name].encode(typ(b), length=n)
            except (ValueError, TypeError):
                require(eff is not None and len(b) > eff, '%s.encode(%r, length=%r) refused', name, b, n)
                continue
            want = b if eff is None else b.ljust(eff, b'\0')
            e = get(name, d)
            require(eff is None or len(b) <= eff, '%s.encode(%r, length=%r) was not refused', name, b, n)
            require(isinstance(e.value, (bytes, bytearray)) and bytes(e.value) == want and e.size == len(want)
                    and bytes(e.getRawValue()) == want, '%s.encode(%r, length=%r) reads back as %r', name, b, n, e.value)
            ctx.add('distinct_nontrivial')


def ascii_of(s):
    return ''.join(c if 32 <= ord(c) < 127 else '?' for c in s)


def string(s, lens, ctx, el=True):
    want = ascii_of(s)
    r = bytes(encoding.encodeString(s))
    require(r == want.encode('ascii'), 'encodeString(%r) = %r', s, r)
    require(decoding.readString(io.BytesIO(r + b'z'), len(r)) == want, 'readString of %r', r)
    for n in lens:
        ctx.add('evaluations')
        r = bytes(encoding.encodeString(s, n))
        require(len(r) == n and r == want[:n].encode().ljust(n, b'\0'), 'encodeString(%r, %d) = %r', s, n, r)
        require(decoding.readString(io.BytesIO(r + b'z'), n) == want[:n], 'readString of %r', r)
        ctx.add('distinct_nontrivial')
    if not el:
        return
    for name in ('S', 'LS'):
        for n in [None] + list(lens):
            eff = M.VS.byName[name].length if n is None else n
            e = get(name, obs.vs()[name].encode(s, length=n))
            w = want if eff is None else want[:eff]
            require(type(e.value) is str and e.value == w and e.size == (len(want) if eff is None else eff),
                    '%s.encode(%r, length=%r) reads back as %r, size %d', name, s, n, e.value, e.size)
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')


def unicode_(s, lens, ctx, el=True):
    nul = s.partition('\0')[0]
    b = s.encode('utf-8')
    r = bytes(encoding.encodeUnicode(s))
    require(r == b, 'encodeUnicode(%r) = %r', s, r)
    require(decoding.readUnicode(io.BytesIO(r + b'z'), len(r)) == nul, 'readUnicode of %r', r)
    for n in lens:
        r = bytes(encoding.encodeUnicode(s, n))
        require(r == b[:n].ljust(n, b'\0'), 'encodeUnicode(%r, %d) = %r', s, n, r)
        ctx.add('evaluations')
        if len(b) <= n:
            require(decoding.readUnicode(io.BytesIO(r + b'z'), n) == nul, 'readUnicode of %r', r)
        ctx.add('distinct_nontrivial')
    if not el:
        return
    for name in ('Z', 'LZ', 'PZ'):
        for n in [None] + list(lens):
            eff = M.VS.byName[name].length if n is None else n
            e = get(name, obs.vs()[name].encode(s, length=n))
            v = e.value
            ctx.add('evaluations')
            require(type(v) is str and e.size == (len(b) if eff is None else eff),
                    '%s.encode(%r, length=%r) has value %r, size %d', name, s, n, v, e.size)
            if eff is None or len(b) <= eff:
                require(v == nul, '%s.encode(%r, length=%r) reads back as %r', name, s, n, v)
            else:
                # a prefix, and the longest that fits
                w = b[:eff].decode('utf-8', 'ignore')
                require(v == w.partition('\0')[0], '%s.encode(%r, length=%r) reads back as %r, expected %r',
                        name, s, n, v, w)
            ctx.add('distinct_nontrivial')


def evaluate(case, ctx):
    k = case[0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if k == 'bin':
            b = bytes(BIN[i] for i in case[1])
            binary(b, range(0, len(b) + 4), ctx)
        elif k == 'str':
            s = ''.join(CHARS[i] for i in case[1])
            string(s, range(0, len(s) + 4), ctx)
            unicode_(s, range(0, len(s.encode()) + 3), ctx)
            if len(s) < 4:
                string(Text(s), range(0, len(s) + 4), ctx)
                unicode_(Text(s), range(0, len(s.encode()) + 3), ctx)
        elif k == 'odd':
            s = case[1]
            n = len(s.encode())
            lens = range(0, n + 3) if len(s) < 3 else ()
            string(s, lens, ctx, el=len(s) < 3)
            unicode_(s, lens, ctx, el=len(s) < 3)
            if len(s) > 2:
                d = obs.vs()['Z'].encode(s)
                require(get('Z', d).value == s, 'Z.encode(%r) reads back as %r', s, get('Z', d).value)
                ctx.add('evaluations')
        elif k == 'cp':
            for c in range(case[1], case[1] + 0x2000):
                s = chr(c)
                if 0xD800 <= c < 0xE000:
                    continue
                full = case[2] == 'thorough' or c < 0x900 or c % 997 == 0
                ls = range(0, 6) if full else ()
                string(s, ls, ctx, el=full)
                string('a' + s + 'b', ls, ctx, el=full and c % 64 == 0)
                unicode_(s, ls, ctx, el=full)
        elif k == 'byte':
            for b in range(256):
                for v in (bytes([b]), bytes([65, b, 66])):
                    binary(v, range(0, 6), ctx)
                    want = bytes(x if 32 <= x < 127 else 63 for x in v)
                    for typ in (bytes, bytearray):
                        r = bytes(encoding.encodeString(typ(v)))
                        require(r == want, 'encodeString(%r) = %r', v, r)
                        r = get('S', obs.vs()['S'].encode(typ(v))).value
                        require(r == want.decode(), 'S.encode(%r) reads back as %r', v, r)
                        ctx.add('evaluations', 2)
                    if b < 128:
                        r = get('Z', obs.vs()['Z'].encode(v)).value
                        require(r == v.decode().partition('\0')[0], 'Z.encode(%r) reads back as %r', v, r)
                        ctx.add('evaluations')
        elif k == 'len':
            n = case[1]
            b = bytes((i * 7 + i // 256) & 255 for i in range(n))
            s = ''.join(chr(32 + i % 95) for i in range(n))
            u = ''.join(CHARS[i % 8] for i in range(n))
            lens = sorted({0, n // 2, max(n - 1, 0), n, n + 1, n + 3})
            binary(b, lens, ctx)
            string(s, lens, ctx)
            if n > 100000:
                return
            string(u, lens, ctx)
            unicode_(s, lens, ctx)
            m = len(u.encode())
            unicode_(u, sorted({0, max(m - 1, 0), max(m - 2, 0), m, m + 1}), ctx)
            if n:
                # characters lost to an ASCII string are one '?' each
                require(get('S', obs.vs()['S'].encode('\u20ac' * n)).value == '?' * n, 'non-ASCII text of %d characters', n)
        elif k == 'read':
            # Reading stops at the first NUL, for any payload bytes.
            b = bytes(BIN[i] for i in case[1])
            for name, kind in (('S', 'string'), ('Z', 'utf8'), ('PZ', 'utf8')):
                data, _ = M.build([(name, b, None), ('U', b'\x07', None)])
                ctx.add('evaluations')
                try:
                    want = M.decode(kind, b)
                except M.Undecodable:
                    try:
                        for e in obs.load(data):
                            v = e.value
                            break
                    except UnicodeDecodeError:
                        continue
                    raise Viol('%s payload %r reads as %r' % (name, b, v))
                els = list(obs.load(data))
                require(len(els) == 2 and els[1].value == 7 and M.same(els[0].value, want),
                        '%s payload %r reads as %r', name, b, els[0].value)
                ctx.add('distinct_nontrivial')
        elif k == 'nul':
            # n characters, a NUL, and something after it
            n = case[1]
            for ch, (nulls, tail) in itertools.product(('A', 'h\xe9', '\u20ac', '\U0001f40d'), itertools.product((1, 2, 9), ('', 'z', ' ', '\0', 'z\0', 'tail ' * 30))):
                t = (ch * n)[:n]
                for name in ('Z', 'PZ') + (('S',) if ch == 'A' else ()):
                    raw = t.encode() + b'\0' * nulls + tail.encode()
                    data, _ = M.build([(name, raw, None), ('U', b'\x07', None)])
                    ctx.add('evaluations')
                    els = list(obs.load(data))
                    require(len(els) == 2 and els[1].value == 7 and els[0].value == t, '%s: %d characters, %d NUL and %r read as %r', name, n, nulls, tail, els[0].value)
                    ctx.add('distinct_nontrivial')
        elif k == 'bad':
            for v in (42, 1.5, object(), {}, 1j, [1], ('a',), Ellipsis):
                for fn in (encoding.encodeBinary, encoding.encodeString, encoding.encodeUnicode):
                    for n in (None, 0, 1, 4):
                        ctx.add('evaluations')
                        try:
                            r = fn(v, n)
                        except Exception:
                            continue
                        raise Viol('%s(%r, %r) = %r' % (fn.__name__, v, n, r))
                if not isinstance(v, (list, tuple)):
                    for name in ('B', 'PB', 'LB', 'S', 'LS', 'Z', 'LZ'):
                        ctx.add('evaluations')
                        try:
                            r = obs.vs()[name].encode(v)
                        except Exception:
                            continue
                        raise Viol('%s.encode(%r) = %r' % (name, v, r))
            for v in (None,):
                for fn in (encoding.encodeString, encoding.encodeUnicode):
                    try:
                        r = fn(v)
                    except Exception:
                        continue
                    raise Viol('%s(None) = %r' % (fn.__name__, r))
