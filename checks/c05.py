""" C05: reading a well-formed document reports exactly its elements. """
import io
import itertools
import os
from mc import base
from mc.base import Viol, require
from mc import model as M, obs, docs, streams
from ebmlite import core

ID = 'C05'
LEVEL = 'exploration'
RULE = ('All ordered forests of up to n elements over the label alphabet (every element type, unknown IDs of each width, '
        'empty payloads, payloads that look like headers, pre-read masters), all header widths x payload-size classes x '
        'types x contexts, all stream kinds x starting positions, and sparse streams beyond 4 GiB; every attribute of every '
        'element compared with the builder. Non-trivial: distinct documents with at least one element.')
BOUNDS = dict(quick='n<=3 with 22 leaves and 4 masters, n=4 with 8 leaves and 2 masters; sizes up to 2^21-1',
              thorough='n<=3 with 22 leaves and 4 masters at 4 widths, n=4 with 12 leaves, n=5 with 4 leaves, sizes up to 2^28-1')
SIZES = list(range(0, 10)) + [125, 126, 127, 128, 129, 254, 255, 256, 257, 16381, 16382, 16383, 16384, 16385, 65535, 65536, 65537]
BIG = [2097149, 2097150, 2097151, 2097152]
HUGE = [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 35) - 2, (1 << 35) - 1, (1 << 42) + 1, (1 << 50)]


def shards(tier):
    s = []
    for i in range(len(docs.LEAVES) + len(docs.MASTERS)):
        s.append(('f3', i))
    n4 = len(docs.SMALL) if tier == 'quick' else 12
    for i in range(n4 + 2):
        for j in range(4):
            s.append(('f4', i, j))
    if tier == 'thorough':
        for i in range(6):
            for j in range(4):
                s.append(('f5', i, j))
    s += [('w', w) for w in range(1, 9)]
    s += [('st', k) for k in streams.KINDS]
    s += [('id', i) for i in range(16)]
    s += [('sp',), ('fac',), ('x',)]
    return s


def pick(it, i, k):
    return itertools.islice(it, i, None, k)


def cases(shard, tier):
    k = shard[0]
    if k == 'f3':
        n = len(docs.LEAVES) + len(docs.MASTERS)
        ms = docs.MASTERS if tier == 'quick' else docs.MASTERS + [('Cl', 3), ('EM', 1), ('Grp', 8)]
        for size in (1, 2, 3):
            for specs in pick(M.forests(size, ms, docs.LEAVES), shard[1], n):
                yield ('d', specs)
    elif k == 'f4':
        lv = docs.SMALL if tier == 'quick' else docs.LEAVES[:12]
        m = (len(lv) + 2) * 4
        for specs in pick(M.forests(4, docs.MASTERS[:2], lv), shard[1] * 4 + shard[2], m):
            yield ('d', specs)
    elif k == 'f5':
        for specs in pick(M.forests(5, docs.MASTERS[:2], docs.TINY), shard[1] * 4 + shard[2], 24):
            yield ('d', specs)
    elif k == 'id':
        # every ID that is not in the schema: all of one and two bytes, all longer ones related to a known one
        ids = unknown_ids()[shard[1]::16]
        for i in range(0, len(ids), 64):
            yield ('d', [(x, b'', None) for x in ids[i:i + 64]] + [('U', b'\1', None)])
            yield ('d', [('Grp', [(x, b'\xa0\x81u', 2) for x in ids[i:i + 64]] + [('U', b'\1', None)], None), ('Seg', [(x, b'', 8) for x in ids[i:i + 8]], None)])
    elif k == 'x':
        for specs in docs.extremes():
            yield ('d', specs)
    elif k == 'w':
        for size in SIZES + (BIG if shard[1] in (3, 4, 8) or tier != 'quick' else []) + \
                ([(1 << 28) - 2, (1 << 28) - 1] if tier != 'quick' and shard[1] in (4, 5) else []):
            if size <= (1 << (7 * shard[1])) - 2:
                for name in ('U', 'I', 'F', 'D', 'S', 'Z', 'B', 'Void', 'PB', 'PZ', 'LU', 'LF', 'LD', 'CRC-32', 'Grp', 'Seg', 'PM', 0xFD, 0x4FFE, 0x2ABCDE, 0x1FEDCBA9):
                    if size > 1000 and name in ('CRC-32', 'PZ', 0xFD, 0x2ABCDE) or size > 1 << 22 and name not in ('B', 'Grp'):
                        continue
                    kind = M.VS.byName[name].kind if isinstance(name, str) else 'unknown'
                    if kind in ('int', 'uint') and size > 8 or kind == 'float' and size not in (0, 4, 8) \
                            or kind == 'date' and size != 8 or kind == 'master' and size == 1:
                        continue
                    yield ('w', name, shard[1], size)
    elif k == 'st':
        for start in (0, 1, 2, 7, 300):
            if start and shard[1] in ('filename', 'path'):
                continue
            for size in (0, 1, 2):
                for specs in M.forests(size, docs.MASTERS[:1], docs.SMALL if size < 2 or tier != 'quick' else docs.TINY):
                    yield ('st', shard[1], start, specs)
            yield ('st', shard[1], start, [docs.HEADER, ('Grp', docs.LEAVES[:8], 8), docs.LEAVES[10], ('Void', bytes(70000), None), ('Seg', docs.LEAVES, None)])
    elif k == 'sp':
        for size in HUGE:
            for w in range(M.min_width(size), 9):
                yield ('sp', size, w)
    else:
        yield ('fac',)


def unknown_ids():
    known = {e.id for e in M.VS.byName.values()}
    out = {i for i in range(0x80, 0xff)} | {i for i in range(0x4000, 0x7fff)}
    for k in known:
        b = M.id_bytes(k)
        for fill in (0, 0x80, 0x81, 0xff, b[0]):
            for n, top in ((3, 0x20), (4, 0x10)):
                for room in (b + bytes([fill]) * 4, bytes([fill]) * 4 + b):
                    r = room[:n] if room.startswith(b) else room[-n:]
                    r = bytes([top | r[0] & (top - 1)]) + r[1:]
                    out.add(int.from_bytes(r, 'big'))
                    out.add(int.from_bytes(bytes([top]) + r[1:], 'big'))
                    out.add(int.from_bytes((bytes([top]) + b'\0\0\0' + b)[:1] + (b'\0\0\0' + b)[-(n - 1):], 'big'))
        for bit in range(8 * len(b)):
            out.add(k ^ 1 << bit)
    return sorted(i for i in out - known if valid_id(i))


def valid_id(i):
    n = (i.bit_length() + 7) // 8
    return 1 <= n <= 4 and i >> (8 * n - n) == 1 and i & ((1 << 7 * n) - 1) not in (0, (1 << 7 * n) - 1)


PAY = bytes(range(1, 256)) * 3


def payload(kind, size):
    if kind in ('string', 'utf8'):
        return (b'text: 0123456789 ' * (size // 17 + 1))[:size]
    if kind == 'date':
        return docs.DATE[:size]
    if kind == 'float':
        return {0: b'', 4: docs.F32, 8: docs.F64}[size]
    if kind in ('int', 'uint'):
        return (b'\x9f\x01\x02\x80\xff\x00\x7e\x11' * 2)[:size]
    return (PAY * (size // len(PAY) + 1))[:size]


def evaluate(case, ctx):
    ctx.add('evaluations')
    k = case[0]
    if k == 'd':
        data, nodes = M.build(case[1])
        doc = obs.load(data)
        obs.check_all(doc, nodes, data, schema=obs.vs())
        ctx.add('elements', M.count(case[1]))
        ctx.add('distinct_nontrivial')
    elif k == 'w':
        _, name, w, size = case
        kind = M.VS.byName[name].kind if isinstance(name, str) else 'unknown'
        p = docs.filler(size) if kind == 'master' else payload(kind, size)
        el = (name, p, w)
        a, z = ('U', b'\x09', None), ('B', b'zz', 2)
        for specs in ([el], [el, z], [a, el, el, z] if size < 20000 else [a, el, z],
                      [('Grp', [a, el, z], 4), z], [('Seg', [('Sub', [el], None), z], 8), el, a] if size < 20000 else [a]):
            try:
                data, nodes = M.build(specs)
            except ValueError:
                continue
            obs.check_all(obs.load(data), nodes, data, schema=obs.vs(), raw=size < 100000 or len(specs) < 3)
            ctx.add('distinct_nontrivial')
            ctx.add('elements', M.count(specs))
    elif k == 'st':
        _, kind, start, specs = case
        junk = b'\x1a\x45\xdf\xa3\x00\x81\xff' * (start // 7 + 1)
        data, nodes = M.build(specs, start=start)
        full = junk[:start] + data
        if kind == 'mmap' and not full:
            return
        st, close = streams.make(kind, full, start, os.path.join(base.scratch(), 'c05-%d.ebml' % os.getpid()))
        try:
            doc = obs.vs().load(st, headers=True)
            try:
                obs.check_all(doc, nodes, full, schema=obs.vs())
                obs.check_all(doc, nodes, full, schema=obs.vs())
            finally:
                if kind in ('filename', 'path'):
                    doc.close()
        finally:
            close()
        ctx.add('elements', M.count(specs))
        ctx.add('distinct_nontrivial')
    elif k == 'sp':
        sparse(case[1], case[2], ctx)
    else:
        factory(ctx)


def sparse(size, w, ctx):
    """ [U][B of `size`][Grp [U][B of `size`][unknown of `size`][U]][Void size][U] """
    parts, nodes, pos = [], [], 0
    U = M.VS.byName['U'].id

    def put(eid, n, pay=None, into=None):
        nonlocal pos
        off = pos
        hdr = M.id_bytes(eid) + M.size_desc(n, w)
        parts.append((pos, hdr + (pay or b'')))
        nd = (eid, off, off + len(hdr), n)
        (nodes if into is None else into).append((nd, []))
        pos += len(hdr) + n
        return nodes[-1] if into is None else into[-1]
    put(U, 1, b'\x11')
    put(0x84, size)
    goff = pos
    kids = []
    hdr = 1 + w
    inner = (1 + w + 1) + (1 + w + size) + (2 + w + size) + (1 + w + 1)
    try:
        M.size_desc(inner, w)
    except ValueError:
        return
    parts.append((goff, b'\xa0' + M.size_desc(inner, w)))
    pos = goff + hdr
    nodes.append(((0xA0, goff, goff + hdr, inner), kids))
    put(U, 1, b'\x12', kids)
    put(0x84, size, None, kids)
    put(0x4FFE, size, None, kids)
    put(U, 1, b'\x13', kids)
    put(0xEC, size)
    put(U, 1, b'\x14')
    st = streams.Sparse(parts, pos)
    doc = obs.vs().load(st, headers=True, size=pos)

    def comp(els, nds):
        els = list(els)
        require(len(els) == len(nds), '%d of %d elements with payloads of %d bytes', len(els), len(nds), size)
        for e, ((eid, off, poff, n), kids) in zip(els, nds):
            require((e.id, e.offset, e.payloadOffset, e.size) == (eid, off, poff, n),
                    'element %r reported as %r', (eid, off, poff, n), (e.id, e.offset, e.payloadOffset, e.size))
            ctx.add('elements')
            if eid == U:
                require(e.value == dict(parts)[off][-1], 'value beyond a payload of %d bytes: %r', size, e.value)
                require(e.getRaw() == dict(parts)[off], 'raw bytes beyond a payload of %d bytes', size)
            if eid == 0xA0:
                comp(e, kids)
                require(len(e) == len(kids), 'len of a container of %d bytes', n)
                comp(e.value, kids)
    comp(doc, nodes)
    comp([doc[i] for i in range(len(doc))], nodes)
    ctx.add('distinct_nontrivial')


def factory(ctx):
    """ A substituted UNKNOWN handler receives every unknown element. """
    for mk in ('class', 'function'):
        schema = core.Schema(io.StringIO(M.VS_XML), name='c05fac')
        made = []

        class Mine(core.UnknownElement):
            pass

        def fac(*a, **kw):
            made.append(kw)
            return Mine(*a, **kw)
        schema.UNKNOWN = Mine if mk == 'class' else fac
        specs = [(0x4FFE, b'abc', 2), ('U', b'\1', None), ('Grp', [(0xFD, b'', None), ('U', b'\2', None), (0x2ABCDE, b'q', 8)], None),
                 (0x1FEDCBA9, b'zz', None)]
        data, nodes = M.build(specs)
        doc = schema.load(io.BytesIO(data), headers=True)
        obs.check_all(doc, nodes, data, schema=schema)
        n = 0
        for e in list(doc) + list(doc[2]):
            if e.id in (0x4FFE, 0xFD, 0x2ABCDE, 0x1FEDCBA9):
                require(isinstance(e, Mine), 'the substituted handler was not used for 0x%X', e.id)
                n += 1
        require(n == 4, 'unknown elements lost')
        ctx.add('evaluations')
        ctx.add('distinct_nontrivial')
