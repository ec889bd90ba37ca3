""" C03: numbers and dates survive encoding at every legal width. """
import datetime
import io
import math
import struct
from mc.base import Viol, require
from mc import model as M, obs
from ebmlite import encoding, decoding

ID = 'C03'
LEVEL = 'exploration'
RULE = ('All integers of |v| <= K and within R of every +-2^k, k <= 64, times widths natural and 1..8, signed and '
        'unsigned; every float of a grid of sign x exponent x boundary mantissa times widths; dates at every '
        'year/month boundary and int64 limit times boundary microseconds; each through encode/decode functions and, '
        'for a subset, through element classes and a loaded document. Non-trivial: a value that was encoded and read back.')
BOUNDS = dict(quick='K=70000, R=300; all 2048 double and 256 single exponents x 8 mantissas; dates: every month 1708-2293',
              thorough='K=2^21, R=20000; 64 mantissas, all 2^16 top halves of singles; dates: every day 1708-2293')
WIDTHS = (None, 1, 2, 3, 4, 5, 6, 7, 8)


def shards(tier):
    K, R = (70000, 300) if tier == 'quick' else (1 << 21, 20000)
    s = [('i', a, a + 1000) for a in range(-K, K, 1000)]
    for k in range(16, 65):
        for sg in (1, -1):
            for a in range(sg * (1 << k) - R, sg * (1 << k) + R, 1000):
                s.append(('i', a, min(a + 1000, sg * (1 << k) + R)))
    s += [('d', e) for e in range(2048)]
    s += [('f', e) for e in range(0, 256, 8)]
    if tier == 'thorough':
        s += [('h', h) for h in range(0, 65536, 512)]
    s += [('t', y) for y in range(1700, 2300)]
    s += [('t', y) for y in (1, 2, 1000, 1600, 2300, 2400, 5000, 9998, 9999)]
    s += [('x',), ('z',)]
    return s


def cases(shard, tier):
    if shard[0] == 'd':
        yield shard + ((8 if tier == 'quick' else 64),)
    elif shard[0] == 't':
        yield shard + (tier,)
    else:
        yield shard


def fits(v, w, signed):
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    return lo <= v <= hi


def roundtrip(name, v, w, enc, dec, signed, ctx):
    ctx.add('evaluations')
    ok = fits(v, 8 if w is None else w, signed)
    try:
        b = bytes(enc(v, w))
    except (ValueError, TypeError, OverflowError):
        require(not ok, '%s(%d, %r) refused a value that fits', name, v, w)
        return None
    require(ok, '%s(%d, %r) = %s although it does not fit', name, v, w, b.hex())
    if w is None:
        n = 1
        while not fits(v, n, signed):
            n += 1
    else:
        n = w
    require(b == v.to_bytes(n, 'big', signed=signed), '%s(%d, %r) = %s', name, v, w, b.hex())
    st = io.BytesIO(b + b'\x7f')
    r = dec(st, len(b))
    require(type(r) is int and r == v and st.tell() == len(b), '%s(%d, %r) = %s reads back as %r', name, v, w, b.hex(), r)
    ctx.add('distinct_nontrivial')
    return b


def check_ints(lo, hi, ctx):
    for v in range(lo, hi):
        for w in WIDTHS:
            roundtrip('encodeInt', v, w, encoding.encodeInt, decoding.readInt, True, ctx)
            roundtrip('encodeUInt', v, w, encoding.encodeUInt, decoding.readUInt, False, ctx)
    # Through element classes and a document, for the ends and some of the middle.
    for v in sorted({lo, lo + 1, lo + 127, (lo + hi) // 2, hi - 2, hi - 1}):
        for name, signed in (('I', True), ('U', False), ('LI', True), ('L4', False), ('LU', False), ('N', False)):
            for w in WIDTHS:
                check_el(name, v, w, fits(v, w or M.VS.byName[name].length or 8, signed), ctx)


def check_el(name, v, w, ok, ctx):
    """ One element, encoded and read through a document. """
    ctx.add('evaluations')
    cls = obs.vs()[name]
    try:
        data = bytes(cls.encode(v, length=w))
    except (ValueError, TypeError, OverflowError):
        require(not ok, '%s.encode(%r, length=%r) refused a legal value', name, v, w)
        return
    require(ok, '%s.encode(%r, length=%r) accepted an illegal value', name, v, w)
    els = list(obs.load(data + b'\x81\x81\x07'))
    require(len(els) == 2 and els[1].value == 7, 'the element following %s(%r, length=%r) is lost', name, v, w)
    r = els[0].value
    require(els[0].name == name and M.same(r, v), '%s(%r, length=%r) reads back as %r', name, v, w, r)
    ctx.add('distinct_nontrivial')


def check_float(f, ctx):
    f32 = None
    try:
        f32 = struct.unpack('>f', struct.pack('>f', f))[0]
    except OverflowError:
        pass
    for w in (None, 4, 8):
        ctx.add('evaluations')
        want = f32 if w == 4 else f
        try:
            b = bytes(encoding.encodeFloat(f, w))
        except (OverflowError, ValueError, TypeError):
            require(want is None, 'encodeFloat(%r, %r) refused a value it can hold', f, w)
            continue
        require(want is not None, 'encodeFloat(%r, %r) = %r out of range', f, w, b)
        require(w is None or len(b) == w, 'encodeFloat(%r, %r) has %d bytes', f, w, len(b))
        st = io.BytesIO(b + b'\x01')
        r = decoding.readFloat(st, len(b))
        require(type(r) is float and st.tell() == len(b) and (r == want or math.isnan(r) and math.isnan(want)),
                'encodeFloat(%r, %r) = %s reads back as %r', f, w, b.hex(), r)
        require(w is None or M.same(r, want), 'encodeFloat(%r, %r) lost the sign', f, w)
        ctx.add('distinct_nontrivial')


def check_float_el(f, ctx):
    for name, w in (('F', None), ('F', 4), ('F', 8), ('LF', None), ('L4F', None), ('L4F', 8)):
        single = (w or M.VS.byName[name].length) == 4
        want = f
        if single:
            try:
                want = struct.unpack('>f', struct.pack('>f', f))[0]
            except OverflowError:
                continue
        data = bytes(obs.vs()[name].encode(f, length=w))
        els = list(obs.load(data + b'\x81\x81\x07'))
        ctx.add('evaluations')
        r = els[0].value
        require(len(els) == 2 and els[1].value == 7 and type(r) is float
                and (r == want or math.isnan(r) and math.isnan(want)),
                '%s(%r, length=%r) reads back as %r', name, f, w, r)
        ctx.add('distinct_nontrivial')


LO = M.EPOCH + datetime.timedelta(microseconds=-((1 << 63) // 1000))
HI = M.EPOCH + datetime.timedelta(microseconds=((1 << 63) - 1) // 1000)


def check_date(d, ctx, el):
    ok = LO <= d <= HI
    for w in (None, 8):
        ctx.add('evaluations')
        try:
            b = bytes(encoding.encodeDate(d, w))
        except (ValueError, TypeError, OverflowError):
            require(not ok, 'encodeDate(%r, %r) refused a representable date', d, w)
            continue
        require(ok, 'encodeDate(%r, %r) = %r, not representable', d, w, b)
        require(b == M.date_payload(d), 'encodeDate(%r, %r) = %s, expected %s', d, w, b.hex(), M.date_payload(d).hex())
        st = io.BytesIO(b + b'\x01')
        r = decoding.readDate(st, 8)
        require(r == d and r.tzinfo is None and st.tell() == 8, 'encodeDate(%r) reads back as %r', d, r)
        ctx.add('distinct_nontrivial')
    if el:
        for name in ('D', 'LD'):
            for w in (None, 8):
                check_el(name, d, w, ok, ctx)


def evaluate(case, ctx):
    kind = case[0]
    if kind == 'i':
        check_ints(case[1], case[2], ctx)
    elif kind == 'd':
        e = case[1]
        ms = [0, 1, (1 << 52) - 1, 1 << 51, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 28) + 1]
        if case[2] > 8:
            ms = sorted(set(ms) | {1 << k for k in range(52)} | {(1 << k) - 1 for k in range(52)})
        for s in (0, 1):
            for i, m in enumerate(ms):
                f = struct.unpack('>d', struct.pack('>Q', s << 63 | e << 52 | m))[0]
                check_float(f, ctx)
                if i < 2:
                    check_float_el(f, ctx)
    elif kind == 'f':
        for e in range(case[1], case[1] + 8):
            for s in (0, 1):
                for m in (0, 1, 2, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff, 0x123456):
                    f = struct.unpack('>f', struct.pack('>I', s << 31 | e << 23 | m))[0]
                    check_float(f, ctx)
                    check_float_el(f, ctx)
    elif kind == 'h':
        for h in range(case[1], case[1] + 512):
            for lo in (0, 1, 0xffff):
                check_float(struct.unpack('>f', struct.pack('>I', h << 16 | lo))[0], ctx)
    elif kind == 't':
        y = case[1]
        for mo in range(1, 13):
            last = 31 if mo in (1, 3, 5, 7, 8, 10, 12) else 30 if mo != 2 else (29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28)
            days = (1, last) if case[2] == 'quick' else range(1, last + 1)
            for dy in days:
                for h, mi, s in ((0, 0, 0), (23, 59, 59)) + (((12, 34, 56),) if dy == 1 else ()):
                    for us in (0, 1, 499999, 500001, 999999):
                        check_date(datetime.datetime(y, mo, dy, h, mi, s, us), ctx, el=(dy == 1 and us in (0, 999999) and h != 12))
        if y in (1708, 2293):
            for k in range(-20, 21):
                for b in (LO, HI):
                    check_date(b + datetime.timedelta(microseconds=k), ctx, el=True)
    elif kind == 'z':
        zones(ctx)
        number_types(ctx)
    else:
        bad_cases(ctx)


class Odd(datetime.tzinfo):
    def utcoffset(self, d):
        return None

    def tzname(self, d):
        return 'odd'

    def dst(self, d):
        return None


class MyDate(datetime.datetime):
    pass


def zones(ctx):
    """ A date with a time zone is refused, or the same moment; subclasses, and either fold, are dates. """
    td = datetime.timedelta
    tzs = [datetime.timezone(td(minutes=m)) for m in range(-23 * 60 - 59, 24 * 60, 37)] + \
        [datetime.timezone.utc, datetime.timezone(td(seconds=1)), datetime.timezone(td(hours=-5, microseconds=-1)), Odd()]
    for d in (M.EPOCH, datetime.datetime(1999, 12, 31, 23, 59, 59, 999999), datetime.datetime(2024, 2, 29, 12), datetime.datetime(1708, 10, 1)):
        for tz in tzs:
            a = d.replace(tzinfo=tz)
            off = a.utcoffset()
            for fn in (lambda: encoding.encodeDate(a), lambda: encoding.encodeDate(a, 8), lambda: obs.vs()['D'].encode(a)[-8:]):
                ctx.add('evaluations')
                try:
                    b = bytes(fn())
                except Exception:
                    continue
                r = decoding.readDate(io.BytesIO(b), 8)
                require(r == d - (off or td(0)), 'encodeDate(%r) was not refused, but reads back as %r', a, r)
        for v in (d.replace(fold=1), MyDate(*d.timetuple()[:6], d.microsecond)):
            for fn in (lambda: encoding.encodeDate(v), lambda: obs.vs()['D'].encode(v)[-8:]):
                ctx.add('evaluations')
                r = decoding.readDate(io.BytesIO(bytes(fn())), 8)
                require(r == d, 'encodeDate(%r) reads back as %r', v, r)
                ctx.add('distinct_nontrivial')


def number_types(ctx):
    """ Subclasses of int and float are numbers; anything else is refused or keeps its value. """
    import decimal
    import enum
    import fractions
    En = enum.IntEnum('En', [('A', 0), ('B', 1), ('C', 300), ('D', 1 << 40)])
    My, MyF = type('My', (int,), {}), type('MyF', (float,), {})
    for v in [e for e in En] + [My(x) for x in (0, 1, 127, 128, 255, 256, 1 << 31, (1 << 63) - 1)] + [True, False]:
        for w in WIDTHS:
            roundtrip('encodeInt', v, w, lambda a, b: encoding.encodeInt(a, b), decoding.readInt, True, ctx)
            roundtrip('encodeUInt', v, w, lambda a, b: encoding.encodeUInt(a, b), decoding.readUInt, False, ctx)
    for v in (0.0, -0.0, 1.5, float('inf'), 1e-310):
        for w in (None, 4, 8):
            ctx.add('evaluations', 2)
            want = bytes(encoding.encodeFloat(v, w))
            for x in (MyF(v), v if v != int(v) else int(v)) if v == v and abs(v) != float('inf') else (MyF(v),):
                r = decoding.readFloat(io.BytesIO(bytes(encoding.encodeFloat(x, w))), len(want))
                require(r == decoding.readFloat(io.BytesIO(want), len(want)), 'encodeFloat(%r, %r) reads back as %r', x, w, r)
    # whole numbers given as floats
    for f in (0.0, -0.0, 1.0, 255.0, 256.0, -1.0, -128.0, -129.0, 2. ** 31, 2. ** 53, 2. ** 62, -2. ** 63, 2. ** 63, 2. ** 64, 1e300):
        for w in WIDTHS:
            for enc, dec, signed in ((encoding.encodeInt, decoding.readInt, True), (encoding.encodeUInt, decoding.readUInt, False)):
                ctx.add('evaluations')
                try:
                    b = bytes(enc(f, w))
                except Exception:
                    continue
                r = dec(io.BytesIO(b), len(b))
                require(r == f, '%s(%r, %r) = %s reads back as %r', enc.__name__, f, w, b.hex(), r)
    for v in (decimal.Decimal('1.5'), decimal.Decimal('1e400'), fractions.Fraction(1, 3), 3, -7, 1 << 60, 10 ** 400, True):
        for w in (None, 4, 8):
            ctx.add('evaluations')
            try:
                b = bytes(encoding.encodeFloat(v, w))
            except Exception:
                continue
            r = decoding.readFloat(io.BytesIO(b), len(b))
            want = struct.unpack('>f', struct.pack('>f', float(v)))[0] if w == 4 else float(v)
            require(r == want, 'encodeFloat(%r, %r) reads back as %r', v, w, r)


def bad_cases(ctx):
    def refused(what, f):
        ctx.add('evaluations')
        try:
            r = f()
        except Exception:
            return
        raise Viol('%s was not refused but gave %r' % (what, r))
    wrong_int = ['1', b'1', None, [1], (), {}, 1j, datetime.datetime(2020, 1, 1), object()]
    for v in wrong_int:
        for w in (None, 1, 4, 8):
            refused('encodeInt(%r, %r)' % (v, w), lambda: encoding.encodeInt(v, w))
            refused('encodeUInt(%r, %r)' % (v, w), lambda: encoding.encodeUInt(v, w))
            if not isinstance(v, (list, tuple)):
                for name in ('I', 'U', 'L4', 'LI', 'N'):
                    refused('%s.encode(%r, length=%r)' % (name, v, w), lambda: obs.vs()[name].encode(v, length=w))
    for v in (float('nan'), float('inf'), -float('inf')):
        refused('encodeInt(%r)' % v, lambda: encoding.encodeInt(v))
        refused('encodeUInt(%r)' % v, lambda: encoding.encodeUInt(v))
    for v in ('1.5', b'1', [1.0], {}, 1j, datetime.datetime(2020, 1, 1), object()):
        for w in (None, 4, 8):
            refused('encodeFloat(%r, %r)' % (v, w), lambda: encoding.encodeFloat(v, w))
            if not isinstance(v, list):
                refused('F.encode(%r, length=%r)' % (v, w), lambda: obs.vs()['F'].encode(v, length=w))
    for w in (1, 2, 3, 5, 6, 7, 9, 10, 16):
        for v in (0.0, 1.5, -1e300):
            refused('encodeFloat(%r, %d)' % (v, w), lambda: encoding.encodeFloat(v, w))
            refused('F.encode(%r, length=%d)' % (v, w), lambda: obs.vs()['F'].encode(v, length=w))
            refused('a float read from %d bytes' % w, lambda: decoding.readFloat(io.BytesIO(bytes(16)), w))
    for v in ('2020-01-01', 0, 1.5, b'x', datetime.date(2020, 1, 1), [datetime.datetime(2020, 1, 1)], {},
              datetime.timedelta(1), datetime.time(1)):
        refused('encodeDate(%r)' % (v,), lambda: encoding.encodeDate(v))
        if not isinstance(v, list):
            refused('D.encode(%r)' % (v,), lambda: obs.vs()['D'].encode(v))
    for w in (0, 1, 2, 4, 7, 9, 16):
        refused('encodeDate(.., %d)' % w, lambda: encoding.encodeDate(datetime.datetime(2020, 1, 1), w))
        refused('a date read from %d bytes' % w, lambda: decoding.readDate(io.BytesIO(bytes(16)), w))
    for v in (1 << 64, (1 << 64) + 1, 1 << 80):
        for w in WIDTHS:
            refused('encodeUInt(%d, %r)' % (v, w), lambda: encoding.encodeUInt(v, w))
    for v in (1 << 63, -(1 << 63) - 1, 1 << 64, 1 << 80, -(1 << 80)):
        for w in WIDTHS:
            refused('encodeInt(%d, %r)' % (v, w), lambda: encoding.encodeInt(v, w))
    # Empty payloads are zero.
    for name, want in (('I', 0), ('U', 0), ('F', 0.0)):
        data, _ = M.build([(name, b'', None), ('U', b'\x07', None)])
        els = list(obs.load(data))
        require(len(els) == 2 and M.same(els[0].value, want) and els[1].value == 7, 'empty %s: %r', name, els)
    require(decoding.readInt(io.BytesIO(b'x'), 0) == 0 and decoding.readUInt(io.BytesIO(b'x'), 0) == 0
            and decoding.readFloat(io.BytesIO(b'x'), 0) == 0.0, 'empty number')
    ctx.add('evaluations', 3)
