""" C07: documents encoded through a schema read back as the same data. """
import collections
import datetime
import io
import itertools
import os
import struct
from mc.base import Viol, require
from mc import model as M, obs
from ebmlite import core

ID = 'C07'
LEVEL = 'exploration'
RULE = ('All content trees of up to n elements over values of every element type, rendered in every combination of form '
        '(dictionary / list / tuple of pairs / list of dictionaries at the root, repeated elements grouped in lists or not, '
        'keys by name or ID, of the plain types or of subclasses of them, repeated values in lists or tuples), with and without headers, written to a stream, by Document.encode or returned; read back by '
        'the independent parser and by ebmlite. Every element of every shipped schema in each of its declared places. Headers of all schemata whose header items are absent, lack a default or have one. All '
        'single faults (unknown name, several values of a single element, wrong type) at each place of a base document. '
        'Non-trivial: distinct (tree, form) renderings that were read back.')
BOUNDS = dict(quick='n<=2 with 23 leaf values, n=3 with 8, n=4 with 3; depth 4; 4608 header definitions',
              thorough='n<=3 with 23 leaf values, n=4 with 8, n=5 with 3; depth 5; 4608 header definitions')
DT = datetime.datetime(1999, 12, 31, 23, 59, 59, 123456)
LEAVES = [('U', 5), ('U', 0), ('I', -300), ('F', 0.1), ('F', 0.0), ('S', 'hi there'), ('Z', 'h\xe9\u20ac\U0001f40d'), ('D', DT),
          ('B', b'\x81\x81\x05\0'), ('B', bytearray(b'')), ('N', 7), ('L4', 70000), ('LS', 'abc'), ('LB', b'12'), ('LI', -2),
          ('L4F', 1.5), ('LZ', '\xe9'), ('PB', b'\xff' * 130), ('CRC-32', b'1234'), ('LU', 1 << 63), ('U', (1 << 64) - 1), ('S', ''), ('Void', b'')]
MID = [LEAVES[i] for i in (0, 2, 5, 6, 8, 10, 3, 22)]
TINY = [LEAVES[i] for i in (0, 6, 10)]
MAST = ['Grp', 'Sub', 'Seg']


def T(specs):
    """ forests() labels to content trees. """
    return [(s[0], T(s[1]) if isinstance(s[1], list) else s[1]) for s in specs]


def lv(ls):
    return [(n, v, None) for n, v in ls] + [('Grp', [], None)]


def shards(tier):
    s = [('t', i) for i in range(48)]
    s += [('s', f) for f in ('matroska.xml', 'mide_ide.xml', 'mide_manifest.xml', 'mide_config_ui.xml')]
    s += [('bad',)] + [('h', i) for i in range(4)] + [('hd', a, b) for a in range(4) for b in range(6)]
    return s


def gen(tier):
    ms = [(m, None) for m in MAST]
    a, b, c = (2, 3, 4) if tier == 'quick' else (3, 4, 5)
    for n in range(0, a + 1):
        yield from M.forests(n, ms, lv(LEAVES))
    yield from M.forests(b, ms[:2], lv(MID))
    yield from M.forests(c, ms[:2], lv(TINY)[:3])


def cases(shard, tier):
    if shard[0] == 't':
        for f in itertools.islice(gen(tier), shard[1], None, 48):
            yield ('t', T(f))
    elif shard[0] == 's':
        sch = core.loadSchema(shard[1])
        ref = M.RefSchema(open(sch.filename, 'rb').read())
        yield ('s', shard[1], 'roots')
        for eid in sorted(ref.byId):
            yield ('s', shard[1], eid)
    elif shard[0] == 'hd':
        for t in itertools.product(range(4), repeat=3):
            for where in (0, 1, 2):
                yield ('hd', (shard[1],) + t, shard[2], where)
    elif shard[0] == 'h':
        for f in M.forests(2 if shard[1] else 1, [('Grp', None)], lv(MID)):
            yield ('h', shard[1], T(f))
        if shard[1] == 0:
            yield ('h', 0, [])
    else:
        yield shard


def render(tree, form, group, key):
    """ The same content as `tree` in one of the documented forms; None when
        the form cannot express it. """
    items = []
    for name, v in tree:
        k = M.VS.byName[name].id if key else name
        if isinstance(v, list):
            v = render(v, form, group, key)
            if v is None:
                return None
            if isinstance(v, (list, tuple)) and not v:
                v = {}
        items.append((k, v))
    if group:
        out = []
        for k, g in itertools.groupby(items, key=lambda kv: kv[0]):
            vs = [v for _, v in g]
            d = M.VS.byId.get(k) or M.VS.byName.get(k)
            if len(vs) > 1 or (d.multiple and group == 2):
                if not d.multiple:
                    out += [(k, v) for v in vs]
                    continue
                if any(isinstance(v, tuple) for v in vs):
                    vs = [list(v) if isinstance(v, tuple) else v for v in vs]
                out.append((k, vs))
            else:
                out.append((k, vs[0]))
        items = out
    if form == 'dict':
        if len({k for k, _ in items}) != len(items):
            return None
        return dict(items)
    return items if form == 'pairs' else tuple(items)


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyBytes(bytes):
    pass


class MyFloat(float):
    pass


Pair = collections.namedtuple('Pair', 'name value')


def variant(val, how, leaf=False):
    """ The same data, of subclasses of the same types (0, 1), or with repeated values in tuples (2). """
    if isinstance(val, dict):
        items = [(variant(k, how, True), variant(v, how)) for k, v in val.items()]
        if how == 2:
            return dict(items)
        if how == 0:
            return collections.OrderedDict(items)
        d = MyDict() if len(items) % 2 else collections.defaultdict(list)
        d.update(items)
        return d
    if isinstance(val, (list, tuple)):
        pairs = val and all(isinstance(i, tuple) and len(i) == 2 for i in val)
        if pairs:
            out = [(variant(k, how, True), variant(v, how)) for k, v in val]
            if how != 2:
                out = [Pair(*i) for i in out]
        else:
            out = [variant(v, how) for v in val]
            if how == 2:
                return tuple(out) if not any(isinstance(i, list) for i in out) else out
        return type(val)(out) if how == 2 else MyList(out) if isinstance(val, list) else tuple(out)
    if how == 1:
        for a, b in ((bool, None), (int, MyInt), (float, MyFloat), (str, MyStr), (bytes, MyBytes)):
            if isinstance(val, a):
                return b(val) if b else val
    return val


def expected(tree):
    out = []
    for name, v in tree:
        d = M.VS.byName[name]
        if isinstance(v, list):
            out.append((name, d.id, tuple(expected(v))))
        else:
            if name == 'Void':
                v = 0       # its size
            elif isinstance(v, (bytes, bytearray)):
                v = bytes(v).ljust(d.length or 0, b'\0')
            elif isinstance(v, float):
                v = repr(v)
            out.append((name, d.id, v))
    return out


def check_bytes(data, want, what, headers=False):
    nodes, end = M.parse(data, M.VS)
    require(end == len(data), '%s: ill-formed output %r', what, data[:80])
    got = [obs.node_content(n) for n in nodes]
    require(got == want, '%s is encoded as %r, expected %r', what, got, want)
    for n in M.walk(nodes):
        if n.d is not None and n.d.length and n.kind != 'master':
            require(n.size == n.d.length, '%s: %s has %d bytes instead of its fixed %d', what, n.name, n.size, n.d.length)
    got = [obs.content(e) for e in obs.load(data)]
    require(got == want, '%s is read back as %r, expected %r', what, got, want)


HDR = ('EBML', 0x1A45DFA3, (('EBMLVersion', 0x4286, 1), ('EBMLReadVersion', 0x42F7, 1), ('DocType', 0x4282, 'vtest'),
                            ('DocTypeVersion', 0x4287, 3), ('DocTypeReadVersion', 0x4285, 2)))


def has_header(want, data, what):
    nodes, _ = M.parse(data, M.VS)
    require(nodes and nodes[0].name == 'EBML', '%s: no header', what)
    h = {n.name: n.value for n in nodes[0].children}
    require(len(h) == len(nodes[0].children), '%s: repeated header items', what)
    for k, _, v in HDR[2]:
        require(h.get(k) == v, '%s: header %s is %r instead of %r', what, k, h.get(k), v)
    for k in h:
        require(str(h[k]) == M.VS.default(k), '%s: header item %s=%r is not the schema default', what, k, h[k])
    require([obs.node_content(n) for n in nodes[1:]] == want, '%s: contents after the header', what)
    d = obs.vs().load(io.BytesIO(data))
    require(d.type == 'vtest' and d.version == 3, '%s: document type %r version %r', what, d.type, d.version)
    require([obs.content(e) for e in d] == want, '%s: read back without headers', what)


def mixtures(tree, want, ctx):
    """ Lists of dictionaries and pairs: every way of cutting the data up, with empty dictionaries anywhere. """
    n = len(tree)
    for cuts in itertools.product((0, 1), repeat=max(0, n - 1)):
        groups, cur = [], []
        for i, t in enumerate(tree):
            cur.append(t)
            if i == n - 1 or cuts[i]:
                groups.append(cur)
                cur = []
        for pairs in itertools.product((0, 1), repeat=len(groups)):
            items = []
            for g, p in zip(groups, pairs):
                r = render(g, 'pairs' if p else 'dict', 0, False)
                if r is None:
                    break
                items += r if p else [r]
            else:
                for at in range(-1, len(items) + 1):
                    lst = items if at < 0 else items[:at] + [{}] + items[at:]
                    if at >= 0 and not items[at:] and at:
                        lst = items + [{}, {}]
                    check_bytes(obs.vs().encodes(lst), want, repr(lst))
                    ctx.add('evaluations')


def evaluate(case, ctx):
    vs = obs.vs()
    if case[0] == 't':
        tree = case[1]
        want = expected(tree)
        for form in ('dict', 'pairs', 'tuple'):
            for group in (0, 1, 2):
                for key in (False, True):
                    val = render(tree, form, group, key)
                    if val is None:
                        continue
                    what = '%r' % (val,)
                    ctx.add('evaluations')
                    before = repr(val)
                    data = vs.encodes(val)
                    require(type(data) is bytes, '%s: encodes returned %r', what, type(data))
                    check_bytes(data, want, what)
                    ctx.add('distinct_nontrivial')
                    for how in range(3):
                        var = variant(val, how)
                        ctx.add('evaluations')
                        r = vs.encodes(var)
                        require(r == data, '%s: the same data as %r is encoded as %r, not %r', what, var, r, data)
                    require(repr(val) == before, '%s was changed by encoding', what)
                    if key is False and group != 1:
                        st = io.BytesIO()
                        st.write(b'junk')
                        vs.encode(st, val)
                        require(st.getvalue() == b'junk' + data, '%s: encode() to a stream differs', what)
                        st = io.BytesIO()
                        vs.document.encode(st, val)
                        require(st.getvalue() == data, '%s: Document.encode() differs', what)
                    # inside a container, as its data
                    if len(tree) and form != 'tuple':
                        d = vs['Grp'].encode(val)
                        check_bytes(bytes(d), [('Grp', 0xA0, tuple(want))], 'Grp.encode(%s)' % what)
        # a list of dictionaries at the root
        parts = [render([t], 'dict', 0, False) for t in tree]
        if parts and all(p is not None for p in parts):
            check_bytes(vs.encodes(parts), want, repr(parts))
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')
        mixtures(tree, want, ctx)
    elif case[0] == 'h':
        tree, want = case[2], expected(case[2])
        for form in ('dict', 'pairs', 'tuple'):
            val = render(tree, form, 1, False)
            if val is None:
                continue
            what = 'with headers: %r' % (val,)
            ctx.add('evaluations')
            has_header(want, vs.encodes(val, headers=True), what)
            st = io.BytesIO()
            vs.encode(st, val, headers=True)
            has_header(want, st.getvalue(), what)
            st = io.BytesIO()
            vs.document.encode(st, val, headers=True)
            has_header(want, st.getvalue(), what)
            check_bytes(vs.encodes(val, headers=False), want, what)
            ctx.add('distinct_nontrivial')
    elif case[0] == 'hd':
        defaults(case, ctx)
    elif case[0] == 's':
        shipped(case[1], case[2], ctx)
    else:
        bad(ctx)


HITEMS = (('EBMLVersion', 0x4286), ('EBMLReadVersion', 0x42F7), ('DocTypeVersion', 0x4287), ('DocTypeReadVersion', 0x4285))
NUMS = ('missing', None, '0', '300')
TYPES = ('missing', None, 'x', '0', 'a b\xe9'[:3], 'some.type-' + 'y' * 130)


def defaults(case, ctx):
    """ A schema whose header items are absent, lack a default, or have one. """
    _, nums, ti, where = case
    items = [('UIntegerElement', n, i, NUMS[k]) for (n, i), k in zip(HITEMS, nums)] + [('StringElement', 'DocType', 0x4282, TYPES[ti])]
    if where == 1:
        items.reverse()
    body = ''.join('<%s name="%s" id="0x%X"%s/>' % (t, n, i, '' if v is None else ' default="%s"' % v) for t, n, i, v in items if v != 'missing')
    x = '<UIntegerElement name="Q" id="0x81" multiple="1"/>'
    xml = '<Schema>%s<MasterElement name="EBML" id="0x1A45DFA3">%s<UIntegerElement name="EBMLMaxIDLength" id="0x42F2" default="4"/></MasterElement></Schema>' % (x, body)
    if where == 2:
        # defined apart from, and only referred to in, the header
        xml = '<Schema>%s%s<MasterElement name="EBML" id="0x1A45DFA3">%s</MasterElement></Schema>' % (
            x, body, ''.join('<%s name="%s"/>' % (t, n) for t, n, i, v in items if v != 'missing'))
    s = core.Schema(io.StringIO(xml), name='hd')
    ref = M.RefSchema(xml.encode())
    want = {n: (v if t[0] == 'S' else int(v)) for t, n, i, v in items if v not in ('missing', None)}
    for data in ({}, {'Q': 5}, [('Q', 5), ('Q', 0)]):
        outs = [s.encodes(data, headers=True)]
        st = io.BytesIO()
        s.encode(st, data, headers=True)
        outs.append(st.getvalue())
        st = io.BytesIO()
        s.document.encode(st, data, headers=True)
        outs.append(st.getvalue())
        for raw in outs:
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')
            nodes, end = M.parse(raw, ref)
            require(end == len(raw) and nodes and nodes[0].name == 'EBML', 'no header in %r', raw)
            got = {n.name: n.value for n in nodes[0].children}
            got.pop('EBMLMaxIDLength', None)
            require(got == want and len(nodes[0].children) <= len(want) + 1, 'schema defaults %r, header written %r', want, got)
            rest = [n.value for n in nodes[1:]]
            require(rest == ([5, 0] if len(data) == 2 else [5] if data else []), 'contents %r, written %r', data, rest)
            d = s.load(io.BytesIO(raw))
            info = dict(d.info)
            info.pop('EBMLMaxIDLength', None)
            require(info == want, 'schema defaults %r, document information %r', want, info)
            require([e.value for e in d] == rest, 'contents %r', list(d))


def sample(d):
    n = d.length or 8
    return {'int': -5, 'uint': 200, 'float': 0.5, 'string': 'text'[:n], 'utf8': 'h\xe9'[:n // 2], 'date': DT, 'binary': b'\x01\xff'[:n]}.get(d.kind)


def shipped(fname, which, ctx):
    sch = core.loadSchema(fname)
    ref = refs(fname, sch)
    if which == 'roots':
        has = 'EBML' in ref.byName
        data = sch.encodes({}, headers=True)
        nodes, end = M.parse(data, ref)
        if has:
            h = {n.name: n.value for n in nodes[0].children}
            require(nodes[0].name == 'EBML' and len(nodes) == 1, '%s: header', fname)
            for k in ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion'):
                if k in ref.byName:
                    want = ref.default(k)
                    require((str(h[k]) if k in h else None) == want, '%s: header %s is %r, default %r', fname, k, h.get(k), want)
            doc = sch.load(io.BytesIO(data))
            require(doc.type == ref.default('DocType'), '%s: type %r', fname, doc.type)
        ctx.add('evaluations')
        return
    d = ref.byId[which]
    if d.kind == 'master' and d.length:
        return
    # paths from the root to this element
    for path in paths(ref, d.id):
        vals = [sample(d)]
        if d.multiple and d.kind not in ('master', 'void'):
            vals.append([sample(d)] * 3)
        for v in vals:
            n = len(v) if isinstance(v, list) else 1
            data = v if d.kind not in ('master', 'void') else ({} if d.kind == 'master' else None)
            for pid in reversed(path):
                data = {ref.byId[pid].name: data}
            raw = sch.encodes(data)
            one = v[0] if isinstance(v, list) else v
            doc = sch.load(io.BytesIO(raw), headers=True)
            els = list(doc)
            for pid in path[:-1]:
                require(len(els) == 1 and els[0].id == pid and els[0].name == ref.byId[pid].name, '%s: %r reads back as %r', fname, data, els)
                els = list(els[0])
            require(len(els) == n, '%s: %r reads back as %r', fname, data, els)
            for e in els:
                require(e.id == d.id and e.name == d.name and isinstance(e, obs.BASES[d.kind]), '%s: %r reads back as %r', fname, data, e)
                if d.kind not in ('master', 'void'):
                    w = bytes(one).ljust(d.length or 0, b'\0') if d.kind == 'binary' else one
                    require(M.same(e.value, w) if d.kind != 'float' else e.value == w, '%s: %r reads back as %r', fname, data, e.value)
                    require(not d.length or e.size == d.length, '%s: %s has %d bytes, not %r', fname, d.name, e.size, d.length)
                else:
                    require(len(e.value) == 0, '%s: %r', fname, e.value)
            nodes, end = M.parse(raw, ref)
            require(end == len(raw), '%s: %r ill-formed', fname, data)
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')


_refs = {}


def refs(fname, sch):
    if fname not in _refs:
        _refs[fname] = M.RefSchema(open(sch.filename, 'rb').read())
    return _refs[fname]


def paths(ref, eid, limit=6):
    """ Up to `limit` chains of containers ending in eid, from the roots. """
    out = []
    if eid in ref.roots:
        out.append([eid])
    queue = [[r] for r in sorted(ref.roots)]
    seen = 0
    while queue and len(out) < limit and seen < 4000:
        p = queue.pop(0)
        seen += 1
        for c in sorted(ref.byId[p[-1]].children):
            if c == eid:
                out.append(p + [c])
            elif c not in p and ref.byId[c].kind == 'master':
                queue.append(p + [c])
    return out[:limit] or [[eid]]


WRONG = {
    'U': ['x', b'1', {}, None, -1, 1 << 64], 'I': ['x', b'1', {}, None, 1 << 63], 'F': ['x', b'1', {}], 'S': [1, 1.5, {}, None],
    'Z': [1, 1.5, {}, None], 'D': ['2001', 5, 1.5, {}], 'B': [1, 1.5, {}], 'N': ['x', None], 'L4': [1 << 32, 'x'],
    'LI': [1 << 23, 'x'], 'LB': [b'123456', 7], 'Grp': [5, 1.5, 'abc', b'abc', object()], 'Sub': [5, 'abc'], 'EBML': [5, 'abc'],
    'LS': [5], 'L4F': ['x'], 'PB': [3], 'PM': [7],
}
SINGLE = {'N': [[1, 2], [3, 3, 3]], 'CRC-32': [[b'1', b'2']], 'EBML': [[{}, {}], [{'EBMLVersion': 1}, {'EBMLVersion': 1}],
          [[('EBMLVersion', 1)], [('EBMLVersion', 1)]]]}


def bad(ctx):
    vs = obs.vs()

    def contexts(k, v):
        """ The fault (k: v) at every place of a base document. """
        yield {k: v}
        yield [(k, v)]
        yield {'U': 1, k: v}
        yield [('U', 1), (k, v), ('U', 2)]
        yield {'Grp': {k: v}}
        yield {'Grp': [{'U': 1}, {k: v}]}
        yield {'Grp': [('U', 1), (k, v)]}
        yield {'Grp': [[('U', 1)], [(k, v)]]}
        yield {'Seg': {'Grp': {'Sub': {k: v}}}}
        yield [('Seg', [('Grp', [('Sub', [('U', 1), (k, v)])])])]
        yield [{'U': 1}, {k: v}]

    def refused(data, why):
        ctx.add('evaluations')
        try:
            r = vs.encodes(data)
        except Exception:
            return
        raise Viol('%s: %r was encoded as %r' % (why, data, r))
    for k in ('Nope', 'u', 'GRP', '', 0x4FFE, 0x7F, 0, -1, None, 1.5, 'UnknownElement'):
        for v in (1, b'x', {}, {'U': 1}, [1, 2]):
            for data in contexts(k, v):
                refused(data, 'unknown name %r' % (k,))
    for k, vals in WRONG.items():
        for v in vals:
            for data in contexts(k, v):
                refused(data, 'wrong data for %s' % k)
            if M.VS.byName[k].multiple and not isinstance(v, dict):
                good = {'U': 1, 'I': 1, 'F': 1., 'S': 'x', 'Z': 'x', 'D': DT, 'B': b'1', 'L4': 1, 'LI': 1, 'LB': b'1',
                        'Grp': {}, 'Sub': {}, 'LS': 'x', 'L4F': 1., 'PB': b'', 'PM': {}}.get(k)
                for data in contexts(k, [good, v]):
                    refused(data, 'wrong data for one of several %s' % k)
    for k, vals in SINGLE.items():
        for v in vals:
            for data in contexts(k, v):
                refused(data, 'several values of %s' % k)
    for data in (5, 1.5, 'abc', b'abc', object(), [5], ['U'], [('U',)], [('U', 1, 2)], {1, 2}):
        refused(data, 'wrong type of document data')
