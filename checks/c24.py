""" C24: every traversal shows the same tree. """
import io
import itertools
import re
from mc.base import Viol, require
from mc import model as M, obs, docs, streams
from ebmlite import core, util, xml_codecs
from xml.etree import ElementTree as ET

ID = 'C24'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all documents of a bounded grammar x all traversal options, against a builder'
RULE = ('All ordered forests of up to n elements over an alphabet of leaves and containers (sized, unknown-size, pre-read, unknown, empty, nested deeply) are traversed '
        'by iteration, flat iteration to every depth, pretty-printing, conversion to XML and dumping, with all options, from the document and from every container in it; '
        'each result is compared element by element with the builder.')
BOUNDS = dict(quick='forests of up to 2 elements of 24 leaves and 5 containers with all options; with one set of options each, of 3 of 24 leaves and 5 containers, of 4 of 8 leaves and 3 containers, of 5 of 4 leaves and 2 containers; chains 30 deep; each of 38 extreme values in 4 documents',
              thorough='forests of up to 3 elements of 24 leaves and 5 containers with all options; with one set of options each, of 4 of 13 leaves and 4 containers, of 6 of 4 leaves and 2 containers; chains 100 deep; each of 38 extreme values in 4 documents')

INF = ('Cl', -1)
LEAVES = docs.LEAVES + [('Seg', [('Cl', [('U', b'\5', None), ('S', b'q', None)], -8), ('PM', [('U', b'\1', None)], None)], None), ('CRC-32', b'', None)]
MASTERS = docs.MASTERS + [('Cl', 1)]
MID = docs.SMALL + [('Seg', [('Cl', [('U', b'\5', None), ('B', b'', None)], -1), ('PM', [('U', b'\1', None)], None)], 2)]
XMLOPTS = list(itertools.product((True, False), repeat=4))
CODECS = ['base64', 'hex', 'ignore']
VCODECS = [None, 'base64', 'hex', 'ignore']


def long_texts():
    """ Values that are long when shown, and of many lines. """
    for n in (30, 100, 300, 2000, 9000):
        for t in (b'a\n', b'x', b'\r', b'\xc3\xa9', b"'\"", b'\\', b' '):
            for name in ('Z', 'S'):
                if name == 'Z' or t[0] < 128:
                    yield [('Grp', [(name, t * n, None)], None), (name, t * n, None)]


def shards(tier):
    return [(k, i) for k in ('full', 'mid', 'tiny', 'x') for i in range(16)] + [('deep', 0), ('far', 0)]


def cases(shard, tier):
    kind, i = shard
    deep = tier == 'thorough'
    if kind == 'full':
        it = itertools.chain.from_iterable(M.forests(n, MASTERS, LEAVES) for n in range(4 if deep else 3))
    elif kind == 'mid':
        it = itertools.chain(M.forests(3, MASTERS, LEAVES), M.forests(4, MASTERS[:3], MID[:8])) if not deep else M.forests(4, MASTERS[:4], MID + LEAVES[8:12])
    elif kind == 'x':
        it = itertools.chain(docs.extremes(), long_texts())
    elif kind == 'tiny':
        it = M.forests(6 if deep else 5, MASTERS[:2], docs.TINY)
    elif kind == 'far':
        for n in FAR if deep else FAR[::2] + [FAR[-1]]:
            for specs in M.forests(1, MASTERS, LEAVES):
                yield ('far', n, specs)
            yield ('far', n, [('U', b'\1', None), ('Seg', [('Grp', LEAVES[:8], 8), ('U', b'\2', 8)], 8), ('B', b'x', None)])
        return
    else:
        for n in (5, 30) + ((100,) if deep else ()):
            specs = [('U', b'\1', None)]
            for _ in range(n):
                specs = [('Void', b'v', None), ('Grp', specs, None), ('U', b'\2', None)]
            yield ('full' if n < 6 else 'mid', specs)
        return
    for specs in itertools.islice(it, i, None, 16):
        yield ('full' if kind == 'x' else kind, specs)


def preorder(nodes, depth):
    for nd in nodes:
        if depth == 0:
            return
        yield nd
        if nd.children is not None:
            yield from preorder(nd.children, depth - 1)


def height(nodes):
    return 1 + max([height(n.children) for n in nodes if n.children] or [0]) if nodes else 0


def flat(root, nodes, what):
    h = height(nodes)
    for d in (None, -1, -5, -10 ** 6, h + 1, 5000, 10 ** 6, 1 << 70) + tuple(range(min(h, 6) + 1)):
        got = list(util.flatiter(root, depth=d)) if d is not None else list(util.flatiter(root))
        want = list(preorder(nodes, -1 if d is None or d < 0 else d))
        key = [(n.name, n.id, n.off) for n in want]
        have = [(e.name, e.id, e.offset) for e in got]
        require(have == key, 'flat iteration of %s to depth %r gives %r, expected %r', what, d, have, key)


def shown(v):
    return repr(v)


LINE = re.compile(r'^ *(\d+) +(\d+) ( *|[-]*) (\S+) \(ID 0x([0-9A-Fa-f]+)\)(.*)$')


def dtype_name(nd):
    return 'list' if nd.children is not None else M.DTYPE[nd.kind].__name__


def pretty(root, top, nodes, values, indent, codec, vcodec=None):
    """ top: the node of the element printed, or None for the document. """
    out = io.StringIO()
    kw = dict(binary_codec=codec) if codec else {}
    if vcodec:
        kw['void_codec'] = vcodec
    util.pprint(root, values=values, out=out, indent=indent, **kw)
    lines = out.getvalue().split('\n')
    require(lines[-1] == '', 'the printout does not end with a line break')
    head, lines = lines[:2], lines[2:-1]
    require('Offset' in head[0] and 'Size' in head[0], 'the printout begins with %r', head)
    flatn = []

    def walk(nds, d):
        for n in nds:
            flatn.append((n, d))
            if n.children is not None:
                walk(n.children, d + 1)
    if top is None:
        first = lines.pop(0)
        m = re.match(r'^ *(\d+) +(\d+) +(\S+) ', first)
        require(m and int(m.group(1)) == root.offset and int(m.group(2)) == root.size and m.group(3) == root.name, 'the line of the document is %r', first)
        walk(nodes, 1)
    else:
        walk([top], 0)
    base = None
    i = 0
    for n, d in flatn:
        require(i < len(lines), 'the printout ends before %r', n)
        m = LINE.match(lines[i])
        require(m, 'the printout has the line %r for %r', lines[i], n)
        require((int(m.group(1)), int(m.group(2)), m.group(4), int(m.group(5), 16)) == (n.off, n.size, n.name, n.id), 'the line %r is of %r, size %d', lines[i], n, n.size)
        require(m.group(3) == indent * d, 'the line %r is indented by %r, expected %r', lines[i], m.group(3), indent * d)
        rest = m.group(6)
        if n.children is not None:
            require('master' in rest and re.search(r'\b%d\b' % len(n.children), rest), 'the line %r should tell the %d subelements', lines[i], len(n.children))
            i += 1
            continue
        require('(%s)' % dtype_name(n) in rest, 'the line %r should tell the type %s', lines[i], dtype_name(n))
        if n.kind not in ('binary', 'void', 'unknown'):
            want = shown(n.value)
            tail = rest.partition(')')[2].strip()
            if values:
                require(tail == want or n.kind == 'float' and tail and M.same(float(tail), n.value), 'the line %r should tell the value %s', lines[i], want)
            else:
                require(not tail, 'the line %r tells a value though none are wanted', lines[i])
            i += 1
            continue
        i += 1
        body = [rest]
        while i < len(lines) and not LINE.match(lines[i]):
            body.append(lines[i])
            i += 1
        if n.kind == 'void' and vcodec:
            mark = '<%s>' % vcodec
            require((mark in rest) == (values and vcodec != 'ignore' or vcodec == codec != 'ignore' and values), 'the line %r of a Void, printed with void_codec=%r', lines[i - len(body)], vcodec)
            require(not ''.join(body).partition(mark)[2].strip(' -') or mark not in rest, 'the printout of the Void shows %r', body)
        elif codec == 'hex' and values and n.kind != 'void':
            digits = re.sub(r'\[ *[0-9A-Fa-f]+\]|\s', '', '\n'.join(x.replace('-', '') for x in body).partition('<hex>')[2])
            require(re.fullmatch('([0-9A-Fa-f]{2})*', digits) and bytes.fromhex(digits) == bytes(n.value), 'the printout of %r shows %r', n, body)
        elif codec in (None, 'ignore') or not values:
            require(len(body) == 1, 'the printout has extra lines %r', body[1:])
    require(i == len(lines), 'the printout has extra lines %r', lines[i:])


def xmlcheck(x, nd, opts, codec, vcodec):
    offsets, sizes, types, ids = opts
    require(x.tag == nd.name, 'XML element %r for %r', x.tag, nd)
    a = dict(x.attrib)
    want = {}
    if offsets:
        want['offset'] = str(nd.off)
    if sizes or nd.kind == 'void':
        want['size'] = str(nd.size)
    if types:
        want['type'] = dtype_name(nd)
    if ids:
        want['id'] = '0x%X' % nd.id
    if nd.kind in ('binary', 'unknown', 'void'):
        c = vcodec if nd.kind == 'void' else codec
        enc = a.pop('encoding', None)
        require(enc == c or c == 'ignore' and enc is None, 'encoding %r for %r, expected %s', enc, nd, c)
        if c == 'ignore':
            require(not (x.text or '').strip(), 'text %r in %r', x.text, nd)
        else:
            got = xml_codecs.BINARY_CODECS[c].decode(x.text or '')
            require(bytes(got) == bytes(nd.value), 'the text of %r decodes to %r', nd, got)
    elif nd.children is None:
        v = a.pop('value', None)
        require(v is not None, 'no value for %r', nd)
        if nd.kind == 'float':
            require(M.same(float(v), nd.value), 'value %r of %r', v, nd)
        else:
            require(v == str(nd.value), 'value %r of %r, expected %r', v, nd, str(nd.value))
    a = {k: v.upper().replace('0X', '0x') if k == 'id' else v for k, v in a.items()}
    require(a == want, 'attributes %r of %r, expected %r', a, nd, want)
    xmlkids(x, nd.children or [], opts, codec, vcodec)


def xmlkids(x, nodes, opts, codec, vcodec):
    require(len(x) == len(nodes), '%d XML elements in %s, expected %d', len(x), x.tag, len(nodes))
    for c, n in zip(x, nodes):
        xmlcheck(c, n, opts, codec, vcodec)


def toxml(root, top, nodes, opts, codec, parent, vcodec=None):
    names = ('offsets', 'sizes', 'types', 'ids')
    kw = dict(zip(names, opts)) if opts is not None else {}
    if codec:
        kw['binary_codec'] = codec
    if vcodec:
        kw['void_codec'] = vcodec
    if parent is not None:
        kids = len(parent)
        x = util.toXml(root, parent=parent, **kw)
        require(len(parent) == kids + 1 and parent[-1] is x, 'the XML element is not added to its parent')
    else:
        x = util.toXml(root, **kw)
    opts = opts or (True,) * 4
    if top is None:
        require(x.get('source') == root.filename and x.tag == type(root).__name__, 'the root of the XML is %r %r', x.tag, x.attrib)
        require(x.get('offset') == (str(root.offset) if opts[0] else None) and x.get('size') == (str(root.size) if opts[1] else None), 'the root of the XML has %r', x.attrib)
        xmlkids(x, nodes, opts, codec or 'base64', vcodec or 'ignore')
    else:
        xmlcheck(x, top, opts, codec or 'base64', vcodec or 'ignore')


def dumpcheck(got, nodes, where):
    want = {}
    for n in nodes:
        want.setdefault(n.name, []).append(n)
    require(isinstance(got, dict) and list(got) == list(want), 'the dump of %s has %r, expected %r', where, got, list(want))
    for name, nds in want.items():
        d = nds[0].d
        v = got[name]
        if len(nds) > 1 and not (d is not None and d.multiple):
            # Not declared as repeatable, but repeated: which one is not specified
            fits = 0
            for n in nds:
                try:
                    dumpcheck({name: v}, [n], where)
                    fits += 1
                except Viol:
                    pass
            require(fits, 'the dump of %s has %r for %s, which is none of its values', where, v, name)
            continue
        if d is not None and d.multiple:
            require(isinstance(v, list) and len(v) == len(nds), 'the dump of %s has %r for %d %s', where, v, len(nds), name)
        else:
            v = [v]
        for x, n in zip(v, nds):
            if n.children is not None:
                dumpcheck(x, n.children, '%s.%s' % (where, name))
            else:
                require(M.same(x, n.value), 'the dump of %s has %r for %s, expected %r', where, x, name, n.value)


def far(n, specs, ctx):
    """ A document whose elements begin far into the stream, after a Void. """
    head = b'\xec' + M.size_desc(n, 8)
    start = len(head) + n
    data, nodes = M.build(specs, start=start)
    d = M.VS.byName['Void']
    void = M.Node(id=d.id, name='Void', kind='void', off=0, poff=len(head), size=n, children=None, raw=b'', unknown=False, d=d, width=8)
    doc = obs.vs().load(streams.Sparse([(0, head), (start, data)], start + len(data)), headers=True, size=start + len(data))
    flat(doc, [void] + nodes, 'the document')
    for j, indent in enumerate(('', '  ')):
        pretty(doc, None, [void] + nodes, False, indent, 'ignore')
    for opts in XMLOPTS:
        toxml(doc, None, [void] + nodes, opts, 'base64', None, 'ignore')
    for i, nd in enumerate(nodes):
        el = doc[i + 1]
        pretty(el, nd, nd.children or [], True, '  ', 'hex', 'hex')
        toxml(el, nd, nd.children or [], None, 'hex', None)
        if nd.children is not None:
            dumpcheck(el.dump(), nd.children, repr(nd))
    ctx.add('distinct_nontrivial')
    ctx.add('evaluations')


FAR = [1 << 16, 999990, 9999990, 99999990, (1 << 31) - 5, (1 << 31) - 1, (1 << 32) - 9, (1 << 32) + 5, 10 ** 12, (1 << 50)]


def evaluate(case, ctx):
    if case[0] == 'far':
        return far(case[1], case[2], ctx)
    kind, specs = case
    data, nodes = M.build(specs)
    if kind != 'deep' and [(n.off, n.end) for n in M.walk(nodes)] != [(n.off, n.end) for n in M.walk(M.parse(data, M.VS)[0])]:
        return              # what follows a container of unknown size would belong to it
    ctx.add('distinct_nontrivial', 1 if specs else 0)
    doc = obs.load(data)
    targets = [(doc, None, nodes)]

    def masters(els, nds):
        for e, n in zip(els, nds):
            if n.children is not None:
                targets.append((e, n, n.children))
                if len(targets) < 8:
                    masters(list(e), n.children)
            elif kind == 'full':
                targets.append((e, n, []))
    masters(list(doc), nodes)
    h = hash_of(specs)
    for j, (root, top, nds) in enumerate(targets):
        what = 'the document' if top is None else repr(top)
        if top is None or nds or top.children is not None:
            obs.check_all(root, nds, data, deep=False, raw=False, values=False)
        flat(root, nds, what)
        if kind == 'full':
            for values, indent, codec in itertools.product((True, False), ('  ', '----'), (None, 'ignore', 'hex')):
                pretty(root, top, nds, values, indent, codec, (None, 'hex', 'base64')[(h + j) % 3])
            for opts in XMLOPTS:
                toxml(root, top, nds, opts, CODECS[(h + j) % 3], None, VCODECS[(h + j) % 4])
            for codec in [None] + CODECS:
                toxml(root, top, nds, None, codec, ET.Element('parent') if codec != 'hex' else None)
        else:
            k = h + j
            pretty(root, top, nds, bool(k & 1), '  ' if k & 2 else '', (None, 'hex')[k >> 2 & 1], (None, 'hex', 'base64')[k % 3])
            toxml(root, top, nds, XMLOPTS[k % 16], CODECS[k % 3], None, VCODECS[k % 4])
        if top is None or top.children is not None:
            dumpcheck(root.dump(), nds, what)
        # and it is all still there
        flat(root, nds, what)
        ctx.add('evaluations')


def hash_of(specs):
    return sum(ord(c) for c in repr(specs))
