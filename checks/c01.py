""" C01: size descriptors encode and decode as exact inverses. """
import io
import itertools
from mc.base import Viol, require
from mc import model as M
from ebmlite import encoding, decoding

ID = 'C01'
LEVEL = 'exploration'
RULE = ('Every size 0..K and every size within +-R of each power of two and of each width limit, times every '
        'descriptor width 1..8 and the natural width; every descriptor of 1..3 bytes and, for 4..8 bytes, every '
        'lead byte with every tail over a boundary alphabet. Non-trivial: a size that is representable, or a '
        'descriptor that is complete.')
BOUNDS = dict(quick='K=2^17+2^15 complete, and 2^21 +-2^14; R=40; tails over {00,01,7f,80,fe,ff}, 4 free tail bytes',
              thorough='K=2^21+2^16 complete; R=3000; 7 free tail bytes')
MAXV = (1 << 56) - 2
ALPHA = (0, 1, 0x7f, 0x80, 0xfe, 0xff)
STEP = 4096


class Src(io.BytesIO):
    pass


def shards(tier):
    top = ((1 << 17) + (1 << 15)) if tier == 'quick' else ((1 << 21) + (1 << 16))
    s = [('r', a, a + STEP) for a in range(0, top, STEP)]
    if tier == 'quick':
        s += [('r', a, a + STEP) for a in range((1 << 21) - (1 << 14), (1 << 21) + (1 << 14), STEP)]
    R = 40 if tier == 'quick' else 3000
    for k in range(0, 57):
        s.append(('r', max(0, (1 << k) - R), (1 << k) + R))
    for w in range(1, 9):
        s += [('d', w, b) for b in range(1, 256)
              if M_width(b) == w]
    s.append(('u',))
    # interleave for balance
    return s


def M_width(b):
    for i in range(1, 9):
        if b & (0x100 >> i):
            return i


def cases(shard, tier):
    if shard[0] == 'r':
        a, b = shard[1], shard[2]
        for x in range(a, b, 256):
            yield ('r', x, min(b, x + 256))
    elif shard[0] == 'd':
        yield ('d', shard[1], shard[2], 4 if tier == 'quick' else 7)
    else:
        yield shard


def dec(data):
    st = io.BytesIO(data + b'\xab\xcd')
    size, n = decoding.readElementSize(st)
    return size, n, st.tell()


def check_size(v, ctx):
    for w in (None, 1, 2, 3, 4, 5, 6, 7, 8):
        fits = v <= MAXV and (w is None or v <= (1 << (7 * w)) - 2)
        if not fits and w is None:
            continue        # beyond 2^56-2: outside the property's domain
        try:
            got = bytes(encoding.encodeSize(v, w))
        except ValueError:
            require(not fits, 'encodeSize(%d, %r) refused a size that fits', v, w)
            ctx.add('evaluations')
            continue
        require(fits, 'encodeSize(%d, %r) = %s but the size does not fit', v, w, got.hex())
        want = M.size_desc(v, M.min_width(v) if w is None else w)
        require(got == want, 'encodeSize(%d, %r) = %s, expected %s', v, w, got.hex(), want.hex())
        r = dec(got)
        require(r == (v, len(got), len(got)), 'descriptor %s of size %d decodes as %r', got.hex(), v, r)
        ctx.add('evaluations')
        ctx.add('distinct_nontrivial')


def evaluate(case, ctx):
    if case[0] == 'r':
        for v in range(case[1], case[2]):
            check_size(v, ctx)
    elif case[0] == 'd':
        w, b, free = case[1], case[2], case[3]
        if w <= 3:
            tails = itertools.product(range(256), repeat=w - 1) if w < 3 or (b & 0x1f) in (0, 1, 0x10, 0x1e, 0x1f) \
                else itertools.product(ALPHA + (2, 0x40, 0xaa), repeat=2)
        else:
            f = min(w - 1, free)
            # the free bytes at the end, and again at the start, of the tail
            tails = itertools.chain(
                (t for p in (0, 0xff, 0x5a)[:1 if f == w - 1 else 3]
                 for t in ((p,) * (w - 1 - f) + x for x in itertools.product(ALPHA, repeat=f))),
                () if f == w - 1 else
                (x + (p,) * (w - 1 - f) for p in (0, 0xff) for x in itertools.product(ALPHA, repeat=f)))
        for t in tails:
            d = bytes((b,) + tuple(t))
            v = int.from_bytes(d, 'big') & ((1 << (7 * w)) - 1)
            want = None if v == (1 << (7 * w)) - 1 else v
            r = dec(d)
            require(r == (want, w, w), 'descriptor %s decodes as %r, expected %r', d.hex(), r, (want, w, w))
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')
    else:
        for w in (None, 1, 2, 3, 4, 5, 6, 7, 8):
            got = bytes(encoding.encodeSize(None, w))
            require(len(got) == (w or 1), "the 'unknown' size of width %r has %d bytes", w, len(got))
            if w in (None, 1):
                require(got == b'\xff', 'encodeSize(None, %r) = %r', w, got)
            ctx.add('evaluations')
        for bad in (0, 9, 10, 64):
            for v in (0, 1, 200):
                try:
                    got = encoding.encodeSize(v, bad)
                except ValueError:
                    ctx.add('evaluations')
                else:
                    raise Viol('encodeSize(%d, %d) returned %r' % (v, bad, got))
        for v in (-1, -128, -(1 << 40)):
            for w in (None, 1, 2, 8):
                try:
                    got = encoding.encodeSize(v, w)
                except (ValueError, TypeError):
                    ctx.add('evaluations')
                else:
                    raise Viol('encodeSize(%d, %r) returned %r' % (v, w, got))
