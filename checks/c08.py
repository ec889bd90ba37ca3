""" C08: written headers agree with the payload; fixed layouts are honoured. """
import copy
import datetime
import io
import itertools
from mc.base import Viol, require
from mc import model as M, obs
from ebmlite import core

ID = 'C08'
LEVEL = 'exploration'
RULE = ('The full product of element types x values (payload sizes 0..12 and around every descriptor limit) x explicit '
        'length (none, 0..payload+4, far too long) x descriptor width (none, 1..8, and illegal ones) x infinite or not x '
        'single value or list; and fixed lengths declared in the schema, overridden or not. The bytes are dissected '
        'independently. Non-trivial: calls that were not refused.')
BOUNDS = dict(quick='17 element types, 9..25 values each', thorough='as quick, with payloads up to 2^21+1 and 40 lengths each')
DT = datetime.datetime(2030, 5, 6, 7, 8, 9, 10)
TEXT = 'abcdefghijklmnopqrstuvwxyz' * 8
WIDTHS = (None, 1, 2, 3, 4, 5, 6, 7, 8)
MASTER_DATA = [{}, {'U': 5}, [('U', 1), ('B', b'xyz')], {'Sub': {'Grp': {'U': 1}}}, {'B': b'x' * 123}, {'B': b'x' * 124},
               {'B': b'x' * 125}, [('U', 1)] * 42, {'B': bytes(16379)}, {'B': bytes(16380)}]


def values(name, tier):
    k = M.VS.byName[name].kind
    big = [126, 127, 128, 16382, 16383, 16384] + ([65535, 2097150, 2097151] if tier == 'thorough' else [])
    if k in ('int', 'uint'):
        vs = [0, 1, 127, 128, 255, 256, 65535, 1 << 23, 1 << 31, 1 << 40, (1 << 63) - 1]
        return vs + ([-1, -128, -129, -(1 << 63)] if k == 'int' else [1 << 63, (1 << 64) - 1])
    if k == 'float':
        return [0.0, 1.0, -2.5, float('inf')]
    if k == 'date':
        return [M.EPOCH, DT]
    if k == 'string':
        return ['', 'a', 'abcdef', 'abcdefg'] + [(TEXT * (n // 208 + 1))[:n] for n in big]
    if k == 'utf8':
        return ['', 'a', '\xe9', 'ab\u20ac', '\U0001f40d\U0001f40d'] + [(TEXT * (n // 208 + 1))[:n] for n in big]
    if k == 'binary':
        return [b'', b'\0', b'abcde', b'abcdef', bytearray(b'\xff' * 12)] + [b'q' * n for n in big]
    if k == 'void':
        return [None, b'', b'abc']
    return []


NAMES = ['U', 'I', 'F', 'S', 'Z', 'D', 'B', 'N', 'L4', 'LS', 'LB', 'LI', 'L4F', 'LZ', 'PB', 'Void', 'CRC-32', 'LU']
MASTERS = ['Grp', 'Sub', 'Seg', 'PM', 'EM', 'EBML', 'Cl']


def shards(tier):
    s = [('e', n, w) for n in NAMES for w in WIDTHS]
    s += [('m', n, w) for n in MASTERS for w in WIDTHS]
    s += [('ship', f) for f in ('matroska.xml', 'mide_ide.xml', 'mide_manifest.xml', 'mide_config_ui.xml')]
    s += [('bad',), ('large',)]
    return s


def cases(shard, tier):
    if shard[0] == 'e':
        name, w = shard[1:]
        for i, v in enumerate(values(name, tier)):
            yield ('e', name, w, i, tier)
    elif shard[0] == 'm':
        for i in range(len(MASTER_DATA)):
            yield ('m', shard[1], shard[2], i)
    else:
        yield shard


def dissect(b, eid, what, width=None):
    """ (unknown?, payload) of exactly one element. """
    b = bytes(b)
    idb = M.id_bytes(eid)
    require(b.startswith(idb), '%s: does not start with the ID: %r', what, b[:16])
    e, size, poff, w = M.read_header(b, 0)
    require(e == eid and poff == len(idb) + w, '%s: header %r', what, b[:16])
    require(width is None or w == width, '%s: a descriptor of %d bytes instead of %r', what, w, width)
    p = b[poff:]
    if size is None:
        return True, p
    if width is None:
        require(w == M.min_width(size), '%s: descriptor of %d bytes for size %d', what, w, size)
    require(size == len(p), '%s: announces %d bytes, holds %d', what, size, len(p))
    return False, p


def legal_payload(name, v, length):
    """ The payload size a call must have, or None if it must be refused;
        'any' where either is fine. """
    d = M.VS.byName[name]
    n = d.length if length is None else length
    k = d.kind
    if k in ('int', 'uint'):
        if n is None:
            return 'any'
        if n > 8:
            return 'any'
        ok = (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))) if k == 'int' and n else 0 <= v < (1 << (8 * n)) if n else False
        return n if ok else None
    if k == 'float':
        return 'any' if n is None else n if n in (4, 8) else 'any' if n == 0 else None
    if k == 'date':
        return 8 if n in (None, 8) else None
    if k in ('string', 'utf8'):
        return (len(v.encode()) if n is None else n)
    if k == 'binary':
        return len(v) if n is None else n if len(v) <= n else None
    return n or 0


def fixed_masters(ctx):
    """ Containers of a fixed length, with data given in every form. """
    for fixed in range(0, 10):
        s = core.Schema(io.StringIO('<Schema><MasterElement name="M" id="0xA0" multiple="1" length="%d"><UIntegerElement name="U" id="0x81" multiple="1"/>'
                                    '<MasterElement name="M"/></MasterElement></Schema>' % fixed), name='c08')
        for n in range(0, 4):
            for k in (0, 1, 2):
                one = [('U', 300)] * k + [('U', 5)] * (n - k if n > k else 0)
                size = sum(4 if v == 300 else 3 for _, v in one)
                forms = [one, tuple(one)] + ([dict(one)] if len(one) < 2 else [{'U': [v for _, v in one]}])
                forms = [([f], 1) for f in forms if isinstance(f, list)] + [(f, 1) for f in forms] + [([f, f], 2) for f in forms if f]
                for data, count in forms:
                    for length in (None, fixed, size, size + 1):
                        for inf in (False, True):
                            for w in (None, 2):
                                eff = fixed if length is None else length
                                what = 'fixed length %d: encode(%r, length=%r, lengthSize=%r, infinite=%r)' % (fixed, data, length, w, inf)
                                ctx.add('evaluations')
                                try:
                                    b = bytes(s['M'].encode(data, length=length, lengthSize=w, infinite=inf))
                                except (ValueError, TypeError):
                                    require(size != eff or not data or count == 1 and data == [()], '%s was refused', what)
                                    continue
                                if not inf:
                                    els = list(s.loads(b))
                                    require(all(e.size == eff and e.id == 0xA0 for e in els) and (len(els) == count or not one), '%s gives %r', what, els)
                                else:
                                    require(b == (M.id_bytes(0xA0) + M.size_desc(None, w or 1) + bytes(s.encodes(one))) * count or not one, '%s gives %r', what, b)
                                    require(not one or eff == size, '%s gives %r', what, b)
                # inside others, where no length can be given
                for outer in ({'M': one}, [('M', one)], {'M': dict(one)} if len(one) < 2 else {'M': [one, one]}):
                    ctx.add('evaluations')
                    try:
                        b = s.encodes(outer)
                    except (ValueError, TypeError):
                        require(size != fixed or not one, 'fixed length %d: %r was refused', fixed, outer)
                        continue
                    require(all(e.size == fixed for e in s.loads(b)), 'fixed length %d: %r gives %r', fixed, outer, b)


def large(ctx):
    """ Layouts of more than 64 KiB. """
    vs = obs.vs()
    for name, v in (('Void', None), ('Void', b'abc'), ('B', b'abc'), ('CRC-32', b''), ('S', 'abc'), ('Z', 'h\xe9')):
        for length in (65534, 65535, 65536, 65537, 70000, 99999, 1 << 20):
            for w in (None, 3, 4, 8):
                what = '%s.encode(%r, length=%d, lengthSize=%r)' % (name, v, length, w)
                b = vs[name].encode(v, length=length, lengthSize=w)
                unk, p = dissect(b, M.VS.byName[name].id, what, w)
                require(not unk and len(p) == length, '%s: a payload of %d bytes', what, len(p))
                want = b'\xff' * length if name == 'Void' else (v.encode() if isinstance(v, str) else v).ljust(length, b'\0')
                require(p == want, '%s: another payload', what)
                ctx.add('evaluations')
                ctx.add('distinct_nontrivial')
    for size in (65520, 65535, 65536, 70000, 1 << 20):
        for w in (None, 3, 8):
            for inf in (False, True):
                b = bytes(vs['Grp'].encode({'B': b'q' * size}, lengthSize=w, infinite=inf))
                unk, p = dissect(b, M.VS.byName['Grp'].id, 'a container of %d bytes' % size, (w or 1) if inf else w)
                require(unk == inf and p[-size:] == b'q' * size and len(p) < size + 16, 'a container of %d bytes: %d bytes are written', size, len(p))
                e = obs.load(b)[0]
                require(e.size == len(p) and len(e) == 1 and bytes(e[0].value) == b'q' * size, 'a container of %d bytes is read as %r', size, e)
                ctx.add('evaluations')


def evaluate(case, ctx):
    vs = obs.vs()
    if case[0] == 'e':
        _, name, w, i, tier = case
        d, cls = M.VS.byName[name], vs[name]
        v = values(name, tier)[i]
        size = len(v.encode()) if isinstance(v, str) else len(v) if isinstance(v, (bytes, bytearray)) else 8
        lens = [None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 126, 127, 128, 16382, 16383] + [size + k for k in range(-2, 5) if size > 12]
        if tier == 'thorough':
            lens += list(range(10, 32)) + [2097150, 2097151]
        for length in lens:
            what = '%s.encode(%.40r, length=%r, lengthSize=%r)' % (name, v, length, w)
            ctx.add('evaluations')
            want = legal_payload(name, v, length)
            fits = want in (None, 'any') or w is None or want <= (1 << (7 * w)) - 2
            try:
                b = cls.encode(v, length=length, lengthSize=w)
            except (ValueError, TypeError):
                require(want in (None, 'any') or not fits, '%s was refused', what)
                continue
            require(want is not None and fits, '%s was not refused: %r', what, bytes(b)[:32])
            unk, p = dissect(b, d.id, what, w)
            require(not unk, '%s: written with unknown size', what)
            eff = d.length if length is None else length
            if eff is not None and not (d.kind == 'float' and eff == 0):
                require(len(p) == eff, '%s: payload of %d bytes', what, len(p))
            elif want != 'any':
                require(len(p) == want, '%s: payload of %d bytes, not %d', what, len(p), want)
            ctx.add('distinct_nontrivial')
            # a list is each value in turn
            if d.multiple and (length in (None, 4, 8, 12) or length == size):
                require(bytes(cls.encode([v, v, v], length=length, lengthSize=w)) == bytes(b) * 3, '%s: a list differs', what)
            # read back
            e = list(obs.load(bytes(b) + b'\x81\x81\x07'))
            require(len(e) == 2 and e[0].size == len(p) and e[0].id == d.id and e[1].value == 7, '%s reads back as %r', what, e)
            require(bytes(e[0].getRaw()) == bytes(b), '%s: raw bytes read back', what)
        for kw in ({}, {'lengthSize': w}):
            ctx.add('evaluations')
            try:
                r = cls.encode(v, infinite=True, **kw)
            except (ValueError, TypeError):
                continue
            raise Viol('%s.encode(%.40r, infinite=True, %r) = %r' % (name, v, kw, bytes(r)[:20]))
    elif case[0] == 'm':
        _, name, w, i = case
        data, cls, d = MASTER_DATA[i], vs[name], M.VS.byName[name]
        plain = bytes(cls.encode(data))
        _, pay = dissect(plain, d.id, '%s.encode(%.60r)' % (name, data))
        kids, _ = M.parse(pay, M.VS)
        want = [obs.node_content(k) for k in kids]
        for infinite in (False, True):
            for length in (None, len(pay), len(pay) + 1, len(pay) + 20, max(0, len(pay) - 1), 0, 5, 127):
                what = '%s.encode(%.60r, length=%r, lengthSize=%r, infinite=%r)' % (name, data, length, w, infinite)
                ctx.add('evaluations')
                fits = infinite or w is None or len(pay) <= (1 << (7 * w)) - 2
                try:
                    b = bytes(cls.encode(data, length=length, lengthSize=w, infinite=infinite))
                except (ValueError, TypeError):
                    require(not fits or length is not None and length != len(pay), '%s was refused', what)
                    continue
                unk, p = dissect(b, d.id, what, w if not infinite else w or 1)
                require(unk == infinite, '%s: unknown size %r', what, unk)
                require(length is None or len(p) == length, '%s: payload of %d bytes', what, len(p))
                require(p.startswith(pay), '%s: payload %r', what, p[:40])
                ctx.add('distinct_nontrivial')
                if infinite:
                    # reads back with its children intact, up to an element not allowed in it
                    ok = all(k.id in d.children | M.VS.globals for k in kids)
                    if not ok:
                        continue
                    for tail in (b'', b'\x4f\xfe\x81z'):
                        els = list(obs.load(b + tail))
                        require(len(els) == 1 + bool(tail), '%s reads back as %r', what, els)
                        e = els[0]
                        require(e.id == d.id and e.size == len(p) and [obs.content(c) for c in e] == want,
                                '%s reads back as %r', what, e)
                        if tail:
                            require(els[1].id == 0x4FFE and bytes(els[1].value) == b'z', '%s: following element %r', what, els[1])
                else:
                    els = list(obs.load(b + b'\x4f\xfe\x81z'))
                    require(len(els) == 2 and els[0].size == len(p) and [obs.content(c) for c in els[0]][:len(want)] == want
                            and els[1].id == 0x4FFE, '%s reads back as %r', what, els)
                if d.multiple and length is None:
                    for others in (([('U', 1)],), ([('U', 1)], [('I', -1), ('S', 'x')]), ({'U': 1},), ({'U': 1}, {'I': -1, 'S': 'x'})):
                        if type(others[0]) is not type(data) or w and len(pay) > (1 << (7 * w)) - 2:
                            continue
                        for lst in ([data, *others], [*others, data], [data, copy.deepcopy(data), *others]):
                            want_ = b''.join(bytes(cls.encode(x, lengthSize=w, infinite=infinite)) for x in lst)
                            r = bytes(cls.encode(lst, lengthSize=w, infinite=infinite))
                            require(r == want_, '%s: the list %.100r is not each in turn', what, lst)
                            ctx.add('evaluations')
    elif case[0] == 'large':
        large(ctx)
    elif case[0] == 'ship':
        sch = core.loadSchema(case[1])
        ref = M.RefSchema(open(sch.filename, 'rb').read())
        for d in ref.byId.values():
            v = {'int': 5, 'uint': 5, 'float': 2.0, 'string': 'ab', 'utf8': '\xe9', 'date': DT, 'binary': b'ab', 'void': None, 'master': {}}[d.kind]
            for w in WIDTHS:
                if d.kind == 'master' and d.length:
                    continue
                b = sch[d.name].encode(v, lengthSize=w)
                what = '%s %s lengthSize=%r' % (case[1], d.name, w)
                unk, p = dissect(b, d.id, what, w)
                require(not unk and (not d.length or len(p) == d.length), '%s: payload %r, fixed length %r', what, p, d.length)
                ctx.add('evaluations')
                ctx.add('distinct_nontrivial')
                try:
                    b = sch[d.name].encode(v, lengthSize=w, infinite=True)
                except (ValueError, TypeError):
                    require(d.kind != 'master', '%s: infinite master refused', what)
                else:
                    require(d.kind == 'master' and dissect(b, d.id, what, w or 1) == (True, b''), '%s: infinite', what)
    else:
        for name, v in (('U', 1), ('S', 'a'), ('B', b'a'), ('Grp', {'U': 1}), ('Void', None), ('D', DT)):
            for w in (0, 9, 10, 16, 64):
                for inf in (False, True):
                    ctx.add('evaluations')
                    try:
                        r = vs[name].encode(v, lengthSize=w, infinite=inf)
                    except Exception:
                        continue
                    raise Viol('%s.encode(%r, lengthSize=%d, infinite=%r) = %r' % (name, v, w, inf, bytes(r)))
        fixed_masters(ctx)
        # Fixed lengths apply inside documents, and an explicit length overrides.
        raw = vs.encodes([('Seg', [('L4', 1), ('LS', 'ab'), ('LB', b'1'), ('LI', -1), ('L4F', 1.0), ('LZ', '\xe9')])])
        nodes, _ = M.parse(raw, M.VS)
        for n in nodes[0].children:
            require(n.size == n.d.length, 'fixed length of %s inside a document: %d', n.name, n.size)
        ctx.add('evaluations')
