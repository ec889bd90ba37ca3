""" C06: containers of unknown size end exactly where the schema says. """
import io
import itertools
from mc.base import Viol, require
from mc import model as M, obs, docs
from ebmlite import core

ID = 'C06'
LEVEL = 'exploration'
RULE = ('All token sequences up to length n, a token being an unknown-size header of a container (recursive, childless, '
        'pre-read, 1- and 4-byte IDs), a known-size container, or a leaf (declared, undeclared, global or unknown to the '
        'schema); the reference parser applies the run rule; all attributes compared, each operation tried first on a '
        'fresh document, and the same tree written with explicit sizes compared. All marker widths on a subset. The same in variants of a schema (definition form x attributes of the global, child and other elements). '
        'Non-trivial: documents in which an unknown-size container has children or is followed by an element.')
BOUNDS = dict(quick='n<=4 over 19 tokens, n=5 over 8 tokens; marker widths 1..8 for n<=3; n<=3 in 1200 schema variants; 70000 children',
              thorough='n<=5 over 19 tokens, n=6 over 9 tokens; marker widths 1..8 for n<=4; n<=4 in 1200 schema variants; 70000 children')


def inf(name, w=1):
    return M.id_bytes(M.VS.byName[name].id) + M.size_desc(None, w)


def el(*specs):
    return M.build(list(specs))[0]


LEAF = {
    'u': el(('U', b'\x05', None)), 's': el(('S', b'abc', 2)), 'v': el(('Void', b'\xff\xa0', None)),
    'x': el((0x4FFE, b'\x81\x81', None)), 'b': el(('B', b'\xa0\xff\x81\x80', 4)), 'n': el(('N', b'', None)),
    'g': el(('Grp', [('U', b'\1', None)], None)), 't': el(('Sub', [('B', b'q', None), ('Grp', [], 2)], 3)),
    'y': el(('B', b'', 2)), 'z': el(('S', b'', None)), 'k': b'\x4f\xfe\x80', 'V': b'\xec\x80', 'e': el(('EM', [], None)), 'p': el(('PM', [('U', b'\2', None)], None)),
}
INF = {'G': 'Grp', 'T': 'Sub', 'S': 'Seg', 'E': 'EM', 'P': 'PM', 'C': 'Cl'}
FULL = 'GTSEPusvxbngtpCyzkV'
LESS = 'GTSusvxg'
MORE = 'GTSECuvxg'


# What a schema may say about a global, a child, a stranger and the container
# itself must not matter beyond who is allowed where.
ATTRS = [''] + [' %s="1"' % a for a in ('mandatory', 'multiple', 'precache', 'length', 'default')] + [' mandatory="1" multiple="1" precache="0"', ' level="1"', ' global="0"']
FORMS = ('new', 'legacy', 'abbrev', 'level', 'nested')


def variant(form, g, c, o):
    """ A schema with a container M (children: c, the container N; not o), and
        the globals g and H (a container). """
    if form == 'legacy':
        return ('<table><element name="M" id="0xA0" level="0" type="master"/><element name="c" id="0xB0" level="1" type="uinteger"%s/>'
                '<element name="H" id="0xA2" level="-1" type="master"/><element name="g" id="0xB1" level="-1" type="uinteger"%s/></table>' % (c, g))
    G = '<UIntegerElement name="g" id="0xB1" %s%s/>' % ('level="-1"' if form == 'level' else 'global="1"', g)
    H = '<MasterElement name="H" id="0xA2" global="1"%s><UIntegerElement name="h" id="0xB4"/></MasterElement>' % g
    O = '<UIntegerElement name="o" id="0xB2"%s/>' % o
    N = '<MasterElement name="N" id="0xA1"%s><UIntegerElement name="c"/><UIntegerElement name="n" id="0xB3"/></MasterElement>' % c
    if form == 'abbrev':
        return '<Schema><UIntegerElement name="c" id="0xB0"%s/>%s%s%s<MasterElement name="M" id="0xA0"><UIntegerElement name="c"/>%s</MasterElement></Schema>' % (c, G, H, O, N)
    C = '<UIntegerElement name="c" id="0xB0"%s/>' % c
    if form == 'nested':
        return '<Schema><MasterElement name="W" id="0xA3">%s%s%s</MasterElement><MasterElement name="M" id="0xA0">%s%s</MasterElement></Schema>' % (G, H, O, C, N)
    return '<Schema><MasterElement name="M" id="0xA0">%s%s</MasterElement>%s%s%s</Schema>' % (C, N, G, H, O)


VTOK = {'M': b'\xa0\xff', 'N': b'\xa1\xff', 'H': b'\xa2\xff', 'c': b'\xb0\x81\x01', 'g': b'\xb1\x81\x02', 'o': b'\xb2\x81\x03', 'n': b'\xb3\x81\x04', 'h': b'\xb4\x80', '?': b'\xbe\x80'}
_variants = {}


def vschema(key):
    if key not in _variants:
        if len(_variants) > 50:
            _variants.clear()
        form, g, c, o = key
        attrs = [ATTRS[i] for i in (g, c, o)]
        if form == 'legacy':
            attrs = [a.replace(' level="1"', '') for a in attrs]
        if form == 'level':
            attrs[0] = attrs[0].replace(' level="1"', '').replace(' global="0"', '')
        attrs[0] = attrs[0].replace(' global="0"', '')
        xml = variant(form, *attrs)
        _variants[key] = core.Schema(io.StringIO(xml), name='v'), M.RefSchema(xml.encode())
    return _variants[key]


def shards(tier):
    s = [('all', a) for a in FULL]
    s += [('all2', a, b) for a in 'GTSEPC' for b in FULL]
    if tier == 'quick':
        s += [('deep', a, b) for a in 'GTS' for b in LESS]
    else:
        s += [('deep', a, b) for a in 'GTSEC' for b in MORE]
    s += [('w', w) for w in range(1, 9)]
    s += [('in', w) for w in (1, 4, 8)]
    s += [('many', k) for k in range(6)]
    s += [('attr', k) for k in range(len(ATTRS))]
    return s


def cases(shard, tier):
    top = 4 if tier == 'quick' else 5
    if shard[0] == 'all':
        for n in (0, 1):
            for t in itertools.product(FULL, repeat=n):
                yield (shard[1] + ''.join(t), 1)
        if shard[1] not in 'GTSEPC':
            # a leading leaf, then a container
            for n in range(1, top - 1):
                for t in itertools.product(FULL, repeat=n):
                    if t[0] in 'GTSEPC':
                        yield (shard[1] + ''.join(t), 1)
    elif shard[0] == 'all2':
        for n in range(1, top - 1):
            for t in itertools.product(FULL, repeat=n):
                yield (shard[1] + shard[2] + ''.join(t), 1)
    elif shard[0] == 'deep':
        alpha, n = (LESS, 3) if tier == 'quick' else (MORE, 4)
        for t in itertools.product(alpha, repeat=n):
            yield (shard[1] + shard[2] + ''.join(t), 1)
    elif shard[0] == 'w':
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for t in itertools.product('GTSuvx', repeat=n):
                if shard[1] > 1 and set(t) & set('GTS'):
                    yield (''.join(t), shard[1])
    elif shard[0] == 'many':
        # long runs, e.g. the clusters of a live stream
        yield (('Cu' * 1500, 'S' + 'Cus' * 500, 'E' * 1500 + 'x', 'S' + 'CuE' * 300 + 'v' * 600, 'C' + 'u' * 70000 + 'x', 'E' + 'u' * 70000 + 'Cu')[shard[1]], 1)
    elif shard[0] == 'attr':
        for form in FORMS:
            for c, o in itertools.product(range(len(ATTRS)), (0, 1, 6)):
                yield ('attr', (form, shard[1], c, o), 3 if tier == 'quick' else 4)
    elif shard[0] == 'in':
        # inside a container of known size that the run cannot cross
        for n in (1, 2, 3):
            for t in itertools.product('GTuvb', repeat=n):
                yield ('[' + ''.join(t) + ']', shard[1])


def evaluate(case, ctx):
    if case[0] == 'attr':
        return attributes(case, ctx)
    toks, w = case
    if toks[0] == '[':
        # Sub [tokens] followed by an element no container here allows
        body = b''.join(LEAF[t] if t in LEAF else inf(INF[t], w) for t in toks[1:-1])
        data = M.id_bytes(0x2B0001) + M.size_desc(len(body), 4) + body + LEAF['x'] + LEAF['u']
    else:
        data = b''.join(LEAF[t] if t in LEAF else inf(INF[t], w) for t in toks)
    nodes, end = M.parse(data, M.VS)
    if end != len(data):
        return
    vs = obs.vs()
    ctx.add('evaluations')
    if any(n.unknown and (n.children or n.end < len(data)) for n in M.walk(nodes)):
        ctx.add('distinct_nontrivial')
    obs.check_all(obs.load(data), nodes, data, schema=vs)
    # Each operation first, on a fresh document.
    first = nodes[0] if nodes else None
    if first is not None and first.children is not None:
        for op in range(6):
            e = next(iter(obs.load(data)))
            if op == 0:
                require(e.size == first.size, 'size first: %r, expected %d', e.size, first.size)
            elif op == 1:
                require(len(e) == len(first.children), 'len first: %d, expected %d', len(e), len(first.children))
            elif op == 2:
                require([c.offset for c in e.value] == [c.off for c in first.children], 'value first: %r', e.value)
            elif op == 3:
                require(e.getRaw() == data[first.off:first.end], 'getRaw first')
            elif op == 4:
                for i, c in enumerate(first.children):
                    require(e[i].offset == c.off and e[i].size == c.size, 'child %d by index', i)
            else:
                e.gc(True)
                e.value
                e.gc(True)
            obs.check_el(e, first, data, schema=vs)
            # ... and on an element made by hand
            e = vs[first.id](e.stream, first.off, None if first.unknown else first.size, first.poff)
            got = (lambda: e.size, lambda: len(e), lambda: [c.offset for c in e.value], lambda: e.getRaw(), lambda: e[len(first.children) - 1].offset if first.children else 0,
                   lambda: e.getRawValue())[op]()
            want = (first.size, len(first.children), [c.off for c in first.children], data[first.off:first.end], first.children[-1].off if first.children else 0,
                    data[first.poff:first.end])[op]
            require(got == want, 'operation %d first on an element made by hand gives %r, expected %r', op, got, want)
            obs.check_el(e, first, data, schema=vs)
    # The same as if it had been written with explicit sizes.
    known, n2 = rebuild(nodes)
    a = [obs.content(x) for x in obs.load(data)]
    b = [obs.content(x) for x in obs.load(known)]
    require(a == b, 'differs from the same document with explicit sizes: %r, %r', a, b)


def rebuild(nodes):
    def spec(nd):
        return (nd.name if nd.d else nd.id, nd.raw if nd.children is None else [spec(c) for c in nd.children], None)
    return M.build([spec(n) for n in nodes])


def attributes(case, ctx):
    _, key, n = case
    s, ref = vschema(key)
    for k in range(1, n + 1):
        for toks in itertools.product(('MHcgon?' if key[0] == 'legacy' else 'MNHcgon?') if k < 3 else 'MHcgo', repeat=k):
            data = b'\xa0\xff' + b''.join(VTOK[t] for t in toks)
            nodes, end = M.parse(data, ref)
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')
            try:
                require(end == len(data), 'bad alphabet')
                obs.check_all(s.load(io.BytesIO(data), headers=True), nodes, data, schema=s)
            except Viol as e:
                raise Viol('schema %s: M%s: %s' % (variant(key[0], *(ATTRS[i] for i in key[1:])), ''.join(toks), e))
