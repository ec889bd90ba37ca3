""" C11: arbitrary bytes never derail or hang reading. """
import io
import itertools
import warnings
from mc.base import Viol, require
from mc import model as M, obs, docs
from checks import c09, c10
from ebmlite import core, util

ID = 'C11'
LEVEL = 'exploration'
RULE = ('All byte strings up to length n over an alphabet with every class of ID and size lead byte (declared leaf, container, '
        'global, pre-read float, 2- and 4-byte IDs, unknown size, zero, invalid), and every single-byte corruption of large '
        'documents; read at every level and compared with a reference walk of the headers the bytes spell out. Non-trivial: '
        'strings on which at least one element is read.')
BOUNDS = dict(quick='length<=5 over 13 bytes, length 6..7 over 6 bytes; 5 documents x every position x 14 replacements',
              thorough='length<=6 over 13 bytes, length 7..8 over 7 bytes; 5 documents x every position x 255 replacements')
ALPHA = bytes([0x81, 0xA0, 0xEC, 0x84, 0x42, 0x02, 0xFF, 0x80, 0x40, 0x01, 0x00, 0x1A, 0xA4])
DEEP = bytes([0xA0, 0xFF, 0x81, 0x80, 0x84, 0xA4, 0x82])
VALS = [0x00, 0x01, 0x08, 0x10, 0x40, 0x80, 0x81, 0x84, 0xA0, 0xEC, 0xFE, 0xFF]


def shards(tier):
    s = [('a', i, j) for i in range(len(ALPHA)) for j in range(len(ALPHA))] + [('s',)]
    n = 6 if tier == 'quick' else 7
    s += [('b', i, j) for i in range(n) for j in range(n)]
    s += [('c', d, r) for d in range(len(c10.FIXED)) for r in range(8)]
    return s


def cases(shard, tier):
    if shard[0] == 's':
        for n in (0, 1):
            for t in itertools.product(ALPHA, repeat=n):
                yield bytes(t)
    elif shard[0] == 'a':
        pre = (ALPHA[shard[1]], ALPHA[shard[2]])
        for n in range(0, 4 if tier == 'quick' else 5):
            for t in itertools.product(ALPHA, repeat=n):
                yield bytes(pre + t)
    elif shard[0] == 'b':
        al = DEEP[:6] if tier == 'quick' else DEEP
        pre = (al[shard[1]], al[shard[2]])
        for n in (4, 5) if tier == 'quick' else (5, 6):
            for t in itertools.product(al, repeat=n):
                yield bytes(pre + t)
    else:
        d = c10.FIXED[shard[1]]
        for pos in range(shard[2], len(d), 8):
            vals = VALS + [d[pos] ^ 0x80, d[pos] ^ 1] if tier == 'quick' else range(256)
            for v in dict.fromkeys(vals):
                if v != d[pos]:
                    yield (shard[1], pos, v)


class Free(Exception):
    """ From here on nothing is specified. """


def extent(data, pos, allowed, depth=0):
    """ End of the run of an unknown-size container; Stop if it cannot be found. """
    if depth > 60:
        raise Free()
    while True:
        try:
            eid, size, poff, w = M.read_header(data, pos)
        except M.Stop as e:
            if e.eof:
                return pos, False
            if 'truncated' in str(e):
                n = 1 if data[pos] & 0x80 else 2 if data[pos] & 0x40 else 3 if data[pos] & 0x20 else 4
                known = pos + n <= len(data)
                return pos, not known or int.from_bytes(data[pos:pos + n], 'big') in allowed
            raise
        if data[poff - w] == 0:
            raise Free()
        if eid not in allowed:
            return pos, False
        d = M.VS.byId.get(eid)
        if size is None:
            if d is None or d.kind != 'master':
                raise M.Stop(pos, False, 'unknown size of a leaf')
            end, cut = extent(data, poff, d.children | M.VS.globals, depth + 1)
            if cut:
                raise Free()
            size = end - poff
        pos = poff + size


class Level:
    """ Expected elements of one level. `next()` returns a Node-like tuple or a
        terminal: 'end', 'error', 'any' (at most one more element, at .pos, then
        end or error), 'free'. """

    def __init__(self, data, pos, end):
        self.data, self.pos, self.end = data, pos, end

    def next(self):
        data, pos, end = self.data, self.pos, self.end
        if end is not None and pos >= end:
            return 'end' if pos == end else 'free'
        try:
            eid, size, poff, w = M.read_header(data, pos)
        except M.Stop as e:
            if e.eof and end is None:
                return 'end'
            if e.eof or 'truncated' in str(e):
                return 'any'
            return 'error'
        if data[poff - w] == 0:
            return 'free'
        if end is not None and poff > end:
            return 'free'
        d = M.VS.byId.get(eid)
        kind = d.kind if d else 'unknown'
        unk = size is None
        if unk:
            if kind != 'master':
                return 'error'
            try:
                stop, cut = extent(data, poff, d.children | M.VS.globals)
            except M.Stop:
                return 'any'
            except Free:
                return 'free'
            if cut:
                return 'any'
            size = stop - poff
        if end is not None and poff + size > end:
            return 'free'
        nd = M.Node(id=eid, name=d.name if d else 'UnknownElement', kind=kind, off=pos, poff=poff, size=size,
                    children=[] if kind == 'master' else None, raw=data[poff:poff + size], unknown=unk, d=d, width=w)
        self.pos = poff + size
        return nd


def fragile(nd, data):
    """ May reading this element raise already when it is reached? """
    if not nd.d or not nd.d.precache:
        return False
    if nd.end > len(data) or nd.kind == 'master':
        return True
    try:
        nd.value
        return False
    except M.Undecodable:
        return True


def walk(it, lv, data, ctx, depth=0):
    last = -1
    it = iter(it)
    while True:
        where = lv.pos
        want = lv.next()
        if want == 'free':
            n = 0
            try:
                for el in it:
                    require(el.offset > last, 'position %d after %d', el.offset, last)
                    require(lv.end is None or el.offset < lv.end, 'element %r in a container that ends at %s', el, lv.end)
                    last, n = el.offset, n + 1
                    if n > len(data):
                        raise Viol('more elements than bytes')
            except Viol:
                raise
            except (RecursionError, MemoryError) as e:
                raise Viol('reading raised %r' % type(e))
            except Exception:
                pass
            return
        try:
            el = next(it)
        except StopIteration:
            require(want in ('end', 'any'), 'reading ends at %d, where %s is expected', where, want)
            return
        except (RecursionError, MemoryError) as e:
            raise Viol('reading raised %r at %d' % (type(e), where))
        except Exception as e:
            if want in ('error', 'any'):
                return
            require(isinstance(want, M.Node) and fragile(want, data), 'reading raised %r at %d, where %s is expected', e, where, want)
            return
        require(want not in ('end', 'error'), 'an extra element %r at %d, where %s is expected', el, where, want)
        require(el.offset > last, 'position %d after %d', el.offset, last)
        last = el.offset
        if want == 'any':
            require(el.offset == where, 'element %r instead of a last one at %d', el, where)
            try:
                more = next(it)
            except (StopIteration, Exception):
                return
            raise Viol('an element %r beyond the end of the data' % more)
        require((el.offset, el.id, el.payloadOffset) == (want.off, want.id, want.poff) and el.name == want.name,
                'element %r (payload at %d) instead of %r', el, el.payloadOffset, want)
        require(el.size == want.size, 'element %r instead of %r', el, want)
        ctx.add('elements')
        if want.kind == 'master':
            if depth < 40:
                walk(el, Level(data, want.poff, want.end), data, ctx, depth + 1)
        elif want.end <= len(data) and not (want.kind in ('int', 'uint') and want.size > 8):
            try:
                v = want.value
            except M.Undecodable:
                continue
            require(M.same(el.value, v), '%r has value %r, expected %r', el, el.value, v)
            require(el.getRawValue() == want.raw, '%r has other raw bytes', el)


def evaluate(case, ctx):
    if isinstance(case, tuple):
        d = bytearray(c10.FIXED[case[0]])
        d[case[1]] = case[2]
        data = bytes(d)
    else:
        data = case
    before = ctx.n.get('elements', 0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        doc = obs.load(data)
        walk(doc, Level(data, 0, None), data, ctx)
    ctx.add('evaluations')
    if ctx.n.get('elements', 0) > before:
        ctx.add('distinct_nontrivial')
