""" C02: element ID validity, canonical bytes, and ID generation. """
import io
import itertools
from mc.base import Viol, require
from mc import model as M
from ebmlite import core, encoding, decoding, util

ID = 'C02'
LEVEL = 'exploration'
RULE = ('validateID on every integer of the class A, B and C number ranges and their surroundings, and for class D on '
        'every value within R of a boundary pattern (thorough: all of 0x10000000-0x20000000); every valid ID enumerated is '
        'also encoded and read back; every first byte; every createID request of a grid of class x bounds x exclusions '
        'x count x schema. Non-trivial: valid IDs, and requests that return at least one ID.')
BOUNDS = dict(quick='-300..0x440000 complete; class D: R=2000 around 0x1000_0000|m*2^k; createID grid of 12k requests, exclusions as list, tuple, sets, dictionary and iterator',
              thorough='-70000..0x20010000 complete (536 M IDs for validity; every 16th block and all boundaries read back)')
CH = 1 << 16




def blocks(tier):
    out = []
    if tier == 'quick':
        out += [(-300, 0)] + [(a, a + CH) for a in range(0, 0x440000, CH)]
        pts = set()
        for base in (0x10000000, 0x101FFFFF, 0x1FFFFFFE, 0x20000000, 0x40000000, 0x80000000, 0x7FFFFF, 0x800000,
                     0x8000000, 0x10000000, 0xFFFFFFF, 0x1A45DFA3, 0x100000000):
            pts.add(base)
        for k in range(22, 29):
            pts.add(0x10000000 + (1 << k))
            pts.add(0x20000000 - (1 << k))
        out += [(p - 2000, p + 2000) for p in sorted(pts)]
    else:
        out += [(-70000, 0)] + [(a, a + CH * 4) for a in range(0, 0x20010000, CH * 4)]
        out += [(p - 3000, p + 3000) for p in (0x40000000, 0x80000000, 0xFFFFFFFF, 0x100000000)]
    return out


def shards(tier):
    return [('v',) + b for b in blocks(tier)] + [('b',)] + \
        [('c', cls, s) for cls in 'ABCDabcd' for s in range(len(SCHEMAS))]


SCHEMAS = [
    '<Schema><UIntegerElement name="V" id="0x4242"/></Schema>',
    '<Schema><MasterElement name="a" id="0x81"/><MasterElement name="b" id="0x83"/><MasterElement name="c" id="0xFE"/>'
    '<MasterElement name="d" id="0x407F"/><MasterElement name="e" id="0x4081"/><MasterElement name="f" id="0x7FFE"/>'
    '<MasterElement name="g" id="0x203FFF"/><MasterElement name="h" id="0x3FFFFE"/>'
    '<MasterElement name="i" id="0x101FFFFF"/><MasterElement name="j" id="0x1FFFFFFE"/></Schema>',
]
RANGES = dict(A=(0x81, 0xFE), B=(0x407F, 0x7FFE), C=(0x203FFF, 0x3FFFFE), D=(0x101FFFFF, 0x1FFFFFFE))


def cases(shard, tier):
    if shard[0] == 'v':
        step = 4096 if tier == 'quick' else CH * 4
        for a in range(shard[1], shard[2], step):
            yield ('v', a, min(shard[2], a + step), tier == 'quick' or (a // step) % 16 == 0)
    elif shard[0] == 'b':
        yield ('b',)
    else:
        cls = shard[1]
        lo, hi = RANGES[cls.upper()]
        edges = [None, lo - 1, lo, lo + 1, lo + 2, lo + 5, hi - 5, hi - 1, hi, hi + 1]
        excl = [[], [lo], [lo, lo + 1, lo + 2], [hi], [hi, hi - 1], list(range(lo + 3, lo + 16)), [0x81, 0x4081, 0x20F000]]
        if tier == 'quick':
            excl = excl[:6]
        for mn in edges:
            for mx in edges:
                for x in range(len(excl)):
                    yield ('c', cls, shard[2], mn, mx, excl[x], (None, 1, 2, 3, 6, 200, 0))


def evaluate(case, ctx):
    if case[0] == 'v':
        valid = util.validateID
        full = case[3]
        nv = 0
        for x in range(case[1], case[2]):
            try:
                r = valid(x)
            except ValueError:
                ok = False
            else:
                if r is not True:
                    raise Viol('validateID(0x%X) returned %r' % (x, r))
                ok = True
            if ok is not ref_valid(x):
                raise Viol('validateID(%#x) says %s' % (x, 'valid' if ok else 'invalid'))
            if ok:
                nv += 1
                if full or x - case[1] < 64 or case[2] - x < 64:
                    want = M.id_bytes(x)
                    got = bytes(encoding.encodeId(x))
                    require(got == want, 'encodeId(0x%X) = %s', x, got.hex())
                    st = io.BytesIO(want + b'\x81\x00')
                    r = decoding.readElementID(st)
                    require(r == (x, len(want)) and st.tell() == len(want), 'ID bytes %s read as %r', want.hex(), r)
        ctx.add('evaluations', case[2] - case[1])
        ctx.add('distinct_nontrivial', nv)
    elif case[0] == 'b':
        for b in range(256):
            for tail in itertools.product((0, 0x7f, 0xff), repeat=3):
                st = io.BytesIO(bytes((b,) + tail))
                ctx.add('evaluations')
                try:
                    r = decoding.readElementID(st)
                except OSError:
                    require(b < 0x10, 'a lead byte %02x is refused', b)
                else:
                    require(b >= 0x10, 'a lead byte %02x is accepted as an ID: %r', b, r)
                    n = 1 if b >= 0x80 else 2 if b >= 0x40 else 3 if b >= 0x20 else 4
                    want = int.from_bytes(bytes((b,) + tail)[:n], 'big')
                    require(r == (want, n) and st.tell() == n, 'ID bytes %02x %r read as %r', b, tail, r)
                    ctx.add('distinct_nontrivial')
        for x in (0x81, 0x407F, 0x203FFF, 0x101FFFFF):
            for ln in (0, 5, 9):
                try:
                    got = encoding.encodeId(x, ln)
                except ValueError:
                    ctx.add('evaluations')
                else:
                    raise Viol('encodeId(0x%X, %d) = %r' % (x, ln, got))
        for x in (0x407F, 0x203FFF, 0x101FFFFF):
            for ln in range(1, len(M.id_bytes(x))):
                try:
                    got = encoding.encodeId(x, ln)
                except ValueError:
                    ctx.add('evaluations')
                else:
                    raise Viol('encodeId(0x%X, %d) = %r' % (x, ln, got))
    else:
        _, cls, si, mn, mx, excl, counts = case
        schema = get_schema(si)
        lo, hi = RANGES[cls.upper()]
        a = max(lo, mn) if mn is not None else lo
        b = min(hi, mx) if mx is not None else hi
        taken = set(excl) | set(schema.elements)
        for cnt in counts:
            kw = {}
            if mn is not None:
                kw['minId'] = mn
            if mx is not None:
                kw['maxId'] = mx
            if cnt is not None:
                kw['count'] = cnt
            want = list(itertools.islice((x for x in range(a, b + 1) if x not in taken), 1 if cnt is None else cnt))
            for form in FORMS if cnt in (None, 3) else FORMS[:1]:
                given = form(excl)
                got = util.createID(schema, cls, exclude=given, **kw)
                require(list(got) == want, 'createID(%r, exclude=%r, %r) = %r, expected %r', cls, given, kw, got[:8], want[:8])
                require(form is iter or given == form(excl), 'createID changed its exclude argument')
            require(all(ref_valid(x) for x in got), 'createID gave invalid IDs')
            ctx.add('evaluations')
            if want:
                ctx.add('distinct_nontrivial')


# The forms in which IDs to avoid are given
FORMS = (list, tuple, set, frozenset, dict.fromkeys, iter)
_schemas = {}


def get_schema(i):
    if i not in _schemas:
        _schemas[i] = core.parseSchema(SCHEMAS[i], 'c02-%d' % i)
    return _schemas[i]


def ref_valid(x):
    return (0x81 <= x <= 0xFE or 0x407F <= x <= 0x7FFE or 0x203FFF <= x <= 0x3FFFFE or 0x101FFFFF <= x <= 0x1FFFFFFE)
