""" C14: XML is converted to EBML exactly as written. """
import base64
import io
import os
import pathlib
import struct
import tempfile
from xml.etree import ElementTree as ET
from mc.base import Viol, require, scratch
from mc import model as M, obs, docs
from ebmlite import core, util

ID = 'C14'
LEVEL = 'bounded_exhaustive'
RULE = ('Every XML tree of the grammar x call options x kinds of source and destination is converted; the bytes written are '
        'read by the reference parser and compared with what the tree describes (values, sizes, descriptor widths, unknown '
        'elements, header). Non-trivial: trees with containers, attributes or anything to be refused.')
BOUNDS = dict(quick='9 leaf kinds x sizes 0-9 x widths 1-8; all trees of 2 nodes over 30 leaves and 8 containers x 40 option sets, of 3 over 12 and 5 x 12',
              thorough='also all trees of 3 nodes over 30 and 8 x 12 option sets, of 4 over 12 and 5 x 3')

b64 = lambda b: base64.b64encode(b).decode()
BIG = bytes(range(200))
DT = '2019-12-31 23:59:59.999999'

# XML nodes: (tag, attributes, text, children, payload, verdict). A payload of
# None stands for the children; a verdict 'no' must be refused, 'may' may be.


def leaf(tag, payload, text=None, verdict='yes', **attrs):
    return (tag, tuple(sorted(attrs.items())), text, None, payload, verdict)


LEAVES = [
    leaf('U', b'\5', value='5'), leaf('U', b'\0\0\5', value='5', size='3'), leaf('I', b'\xff', value='-1'),
    leaf('I', b'\xff\xff\xff\xfe', value='-2', size='4'), leaf('F', struct.pack('>d', 1.5), value='1.5'),
    leaf('F', struct.pack('>f', 1.5), value='1.5', size='4'), leaf('F', struct.pack('>d', float('-inf')), value='-inf'),
    leaf('S', b'abc', value='abc'), leaf('S', b'abc\0\0', value='abc', size='5'), leaf('S', b'ab', value='abc', size='2'),
    leaf('Z', 'h\xe9<&"'.encode(), value='h\xe9<&"'), leaf('D', docs.DATE, value=DT), leaf('D', docs.DATE, value=DT.replace(' ', 'T'), size='8'),
    leaf('B', b'\0bin', b64(b'\0bin')), leaf('B', b'\1\2\xff', '[000000] 01 02ff\n', encoding='hex'),
    leaf('B', BIG, '\n  ' + b64(BIG) + '\n', encoding='base64'), leaf('Void', b'\xff' * 3, size='3'), leaf('Void', b'', None),
    leaf('Mine', b'uu', b64(b'uu'), id='0x4FFE'), leaf('Other', b'', None, id='0x2ABCDE', encoding='hex'),
    leaf('UnknownElement', b'\1', '01', id='fd', encoding='hex', size='1'),
    leaf('U', b'\7', value='7', sizeLength='2'), leaf('B', b'x', b64(b'x'), sizeLength='8', id='0x84', type='bytearray', offset='77'),
    leaf('B', BIG, b64(BIG), 'may', sizeLength='1'), leaf('L4', b'\0\0\0\1', value='1'), leaf('EM', None),
    leaf('S', b'', None), leaf('S', b'', 'words', value=''), leaf('Z', b'ab', '\n  words\n', value='ab'), leaf('U', b'\5', '7', value='5'), leaf('Z', b'', '7', value=''), leaf('Mine', None, b64(b'uu'), 'no'), leaf('U', None, None, 'no', value='300', size='1'), '!comment', '!pi',
]
SKIP = ('!comment', '!pi')
SMALL = [LEAVES[i] for i in (0, 8, 10, 13, 16, 18, 21, 22, 23, 25, 27, 29)]
MASTERS = [('Grp', {}), ('Grp', {'sizeLength': '1'}), ('Sub', {'sizeLength': '2'}), ('Seg', {'sizeLength': '8'}),
           ('Cl', {'size': '5'}), ('EBML', {}), ('PM', {'sizeLength': '4', 'id': '0xA4', 'offset': '3', 'size': '70000'}), ('Grp', {'size': '1000000000'})]
MSMALL = MASTERS[:4] + MASTERS[5:6]
CALLS = [(sl, h, u) for sl in (None, 1, 2, 4, 8) for h in (False, True) for u in (True, False)]
SRC = ['el', 'tree', 'bytes', 'name', 'text', 'path']
DST = ['bio', 'mid', 'name', 'path', 'file', 'raw']


def xml(n):
    if n == '!comment':
        return ET.Comment('c <U/>')
    if n == '!pi':
        return ET.ProcessingInstruction('U', 'value="5"')
    tag, attrs, text, kids = n[:4]
    e = ET.Element(tag, dict(attrs))
    e.text = text
    for k in kids or ():
        e.append(xml(k))
    return e


def has(n, verdict):
    return n not in SKIP and (n[5] == verdict or any(has(k, verdict) for k in n[3] or ()))


def unknown(n):
    return n not in SKIP and (n[0] not in M.VS.byName or any(unknown(k) for k in n[3] or ()))


def match(nodes, got, data, call, inherited, strict):
    """ Elements read against the XML nodes; True if a requested width could not be used. """
    nodes = [n for n in nodes if n not in SKIP]
    require(len(nodes) == len(got), '%d elements written for %d described: %r', len(got), len(nodes), got)
    for n, g in zip(nodes, got):
        tag, attrs, text, kids, payload, verdict = n
        attrs = dict(attrs)
        d = M.VS.byName.get(tag)
        eid = d.id if d else int(attrs['id'], 16)
        require(g.id == eid, '<%s> was written as ID 0x%X', tag, g.id)
        if payload is None:
            kids = kids or ()
            match(kids, M.parse(g.raw, M.VS)[0], g.raw, call, inherited or 'sizeLength' in attrs, strict)
            w = int(attrs['sizeLength']) if 'sizeLength' in attrs else None if inherited else call
            if w is not None:
                require(g.width == max(w, M.min_width(g.size)), '<%s> of %d bytes: width %d was requested, %d used', tag, g.size, w, g.width)
        else:
            require(g.raw == payload, '<%s %r> was written with payload %r, expected %r', tag, attrs, g.raw, payload)
            if 'sizeLength' in attrs:
                w = int(attrs['sizeLength'])
                require(g.width == w or M.min_width(g.size) > w, '<%s %r>: descriptor width %d', tag, attrs, g.width)
        require(not g.unknown, '<%s> was written with unknown size', tag)


def forced_wide(nodes, call, inherited=False):
    """ Might a requested container width be too small? (Then refusal is also fine.) """
    for n in nodes:
        if n in SKIP or n[4] is not None or n[5] == 'no':
            continue
        attrs = dict(n[1])
        w = int(attrs['sizeLength']) if 'sizeLength' in attrs else call
        if n[3] and 'sizeLength' in attrs or call is not None:
            if w is not None and w < 2 and size_of(n) > 100:
                return True
        if forced_wide(n[3] or (), call):
            return True
    return False


def size_of(n):
    if n in SKIP:
        return 0
    return 12 + (sum(size_of(k) for k in n[3] or ()) if n[4] is None else len(n[4]))


def source(x, kind, path):
    if kind == 'el':
        return x
    if kind == 'tree':
        return ET.ElementTree(x)
    if kind == 'text':
        return io.StringIO(ET.tostring(x, encoding='unicode'))
    b = ET.tostring(x, encoding='utf-8')
    if kind == 'bytes':
        return io.BytesIO(b)
    with open(path, 'wb') as f:
        f.write(b)
    return pathlib.Path(path) if kind == 'path' else path


class Dest:
    def __init__(self, kind, path):
        self.kind, self.path, self.f = kind, path, None
        self.pre = b''
        if kind in ('bio', 'mid'):
            self.pre = b'\xec\x82ab' if kind == 'bio' else b'#' * 7
            self.f = io.BytesIO()
            self.f.write(self.pre + (b'Z' * 400 if kind == 'mid' else b''))
            self.f.seek(len(self.pre))
        elif kind in ('file', 'raw'):
            with open(path, 'wb') as f:
                f.write(b'before' + b'Z' * 300)
            self.pre = b'before'
            self.f = open(path, 'r+b', buffering=0 if kind == 'raw' else -1)
            self.f.seek(6)
        else:
            with open(path, 'wb') as f:
                f.write(b'old content that is longer than anything' * 99)

    def arg(self):
        return self.f if self.f is not None else self.path if self.kind == 'name' else pathlib.Path(self.path)

    def written(self, n):
        if self.kind in ('bio', 'mid'):
            b, at = self.f.getvalue(), self.f.tell()
        elif self.f is not None:
            require(not self.f.closed, 'a stream passed in was closed')
            at = self.f.tell()
            self.f.close()
            with open(self.path, 'rb') as f:
                b = f.read()
        else:
            with open(self.path, 'rb') as f:
                b = f.read()
            at = len(b)
        require(b.startswith(self.pre), 'what was before the position in the destination is gone')
        if self.kind in ('mid', 'file', 'raw'):
            require(b[at:].strip(b'Z') == b'', 'more than described was overwritten')
        require(n == at - len(self.pre), 'returned %r, but %d bytes were written', n, at - len(self.pre))
        return b[len(self.pre):at]


_n = [0]


def convert(x, call, sk, dk, schema=None):
    base = os.path.join(scratch(), 'c14-%d' % os.getpid())
    d = Dest(dk, base + '.ebml')
    sl, h, u = call
    before = ET.tostring(x)
    try:
        n = util.xml2ebml(source(x, sk, base + '.xml'), d.arg(), schema or obs.vs(), sizeLength=sl, headers=h, unknown=u)
    except BaseException:
        if d.f is not None:
            d.f.close()
        raise
    require(ET.tostring(x) == before, 'the XML was modified')
    return d.written(n)


HEADER = [('EBMLVersion', 1), ('EBMLReadVersion', 1), ('DocType', 'vtest'), ('DocTypeVersion', 3), ('DocTypeReadVersion', 2)]


def judge(nodes, isdoc, call, sk, dk, root=None, schema=None):
    sl, h, u = call
    if isdoc:
        x = ET.Element(root or obs.vs().document.__name__, {'source': '', 'size': '99'})
        for n in nodes:
            x.append(xml(n))
    else:
        x = xml(nodes[0])
    no = any(has(n, 'no') for n in nodes) or not u and any(unknown(n) for n in nodes)
    may = any(has(n, 'may') for n in nodes) or forced_wide(nodes, sl)
    what = '%s sizeLength=%r headers=%s unknown=%s from %s to %s' % (ET.tostring(x)[:500], sl, h, u, sk, dk)
    try:
        b = convert(x, call, sk, dk, schema)
    except Viol as e:
        raise Viol('%s: %s' % (what, e))
    except Exception as e:
        if no or may:
            if not may and not u and any(unknown(n) for n in nodes) and not any(has(n, 'no') for n in nodes):
                require(isinstance(e, NameError), '%s: unknown names raised %r, not NameError', what, e)
            return 'refused'
        raise Viol('%s: raised %s: %s' % (what, type(e).__name__, e))
    require(not no, '%s: was converted to %r instead of being refused', what, b[:200])
    try:
        got, end = M.parse(b, M.VS)
        require(end == len(b), '%s: wrote %r, malformed', what, b[:200])
        if h and not any(n not in SKIP and n[0] == 'EBML' for n in nodes):
            require(got and got[0].name == 'EBML', '%s: no header in %r', what, b[:100])
            r = [(k.name, k.value) for k in got[0].children]
            require(r == HEADER, '%s: header holds %r', what, r)
            got = got[1:]
        match(nodes, got, b, sl, False, True)
    except Viol as e:
        raise Viol('%s: %s' % (what, e))
    except (M.Stop, M.Undecodable) as e:
        raise Viol('%s: wrote %r, malformed: %s' % (what, b[:200], e))
    return 'ok'


def grid(kind):
    """ (leaf) for every size attribute and descriptor width. """
    vals = dict(
        U=[('0', 0), ('5', 5), ('255', 255), ('256', 256), (str(2**64 - 1), 2**64 - 1)], I=[('0', 0), ('-1', -1), ('127', 127), ('-128', -128), ('128', 128), (str(-2**63), -2**63)],
        F=[('1.5', 1.5), ('-0.25', -.25), ('inf', float('inf'))], S=[('abc', b'abc'), ('', b''), ('abcdefgh', b'abcdefgh')],
        Z=[('h\xe9', 'h\xe9'.encode()), ('\u20ac\u20ac', '\u20ac\u20ac'.encode())], D=[(DT, docs.DATE)], B=[(b'', b''), (b'abc', b'abc'), (b'\0' * 8, b'\0' * 8)],
        Mine=[(b'', b''), (b'abc', b'abc')], Void=[(None, None)])[kind]
    for sv, v in vals:
        for size in range(10):
            for w in (None,) + tuple(range(1, 9)):
                attrs = {'size': str(size)}
                if w:
                    attrs['sizeLength'] = str(w)
                text, verdict, payload = None, 'yes', None
                if kind in ('B', 'Mine'):
                    text = b64(v)
                    payload = v + b'\0' * (size - len(v)) if size >= len(v) else None
                    if kind == 'Mine':
                        attrs['id'] = '0x4FFE'
                elif kind == 'Void':
                    payload = b'\xff' * size
                else:
                    attrs['value'] = sv
                    if kind in 'UI':
                        try:
                            payload = v.to_bytes(size, 'big', signed=kind == 'I')
                        except OverflowError:
                            pass
                        if size == 0 and v:
                            payload = None
                        if size == 9:
                            verdict = 'may'
                        if size == 0 and v == 0:
                            verdict = 'may'
                    elif kind == 'F':
                        payload = struct.pack('>f', v) if size == 4 else struct.pack('>d', v) if size == 8 else None
                        if size == 0:
                            continue
                    elif kind == 'D':
                        payload = v if size == 8 else None
                    else:
                        cut = v[:size].decode('utf-8', 'ignore').encode()
                        payload = cut + b'\0' * (size - len(cut))
                if payload is None:
                    verdict = 'no'
                yield (kind, tuple(sorted(attrs.items())), text, None, payload, verdict)


def trees(n, leaves, masters, depth=4):
    if n == 1:
        yield from leaves
    elif depth > 1:
        for kids in forests(n - 1, leaves, masters, depth - 1):
            for tag, attrs in masters:
                yield (tag, tuple(sorted(attrs.items())), None, tuple(kids), None, 'yes')


def forests(n, leaves, masters, depth=4):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for t in trees(k, leaves, masters, depth):
            for rest in forests(n - k, leaves, masters, depth):
                yield [t] + rest


def shards(tier):
    s = [('grid', k) for k in ('U', 'I', 'F', 'S', 'Z', 'D', 'B', 'Mine', 'Void')] + [('one', i) for i in range(8)] + [('misc',)]
    s += [('n', 2, 'all', i, 16) for i in range(16)] + [('n', 3, 'small', i, 16) for i in range(16)]
    if tier == 'thorough':
        s += [('n', 3, 'all', i, 64) for i in range(64)] + [('n', 4, 'small', i, 64) for i in range(64)]
    return s


def cases(shard, tier):
    if shard[0] == 'misc':
        for i in range(len(MISC)):
            yield ('misc', i)
    elif shard[0] == 'grid':
        for n in grid(shard[1]):
            yield ('f', [n], (None, False, True), 0, 0, True)
            yield ('f', [n], (4, False, True), 0, 0, False) if n[0] != 'Mine' else ('f', [n], (4, True, True), 1, 1, True)
    elif shard[0] == 'one':
        i = 0
        ones = [[x] for x in LEAVES] + [[('Grp', (), None, (x,), None, 'yes')] for x in LEAVES] + [[]]
        for f in ones:
            for call in CALLS:
                for sk in range(6):
                    for dk in range(6):
                        i += 1
                        if i % 8 == shard[1]:
                            yield ('f', f, call, sk, dk, True)
    else:
        _, n, al, part, parts = shard
        lv, ms = (LEAVES, MASTERS) if al == 'all' else (SMALL, MSMALL)
        for i, f in enumerate(forests(n, lv, ms)):
            if i % parts != part:
                continue
            if n == 2:
                for j, call in enumerate(CALLS):
                    yield ('f', f, call, (i + j) % 6, (i + j // 6) % 6, True)
                    if len(f) == 1 and f[0] != '!comment' and f[0][0] in M.VS.byName:
                        yield ('f', f, call, (i + j) % 3, 0, False)
            else:
                step = (1 if n == 3 else 7)
                for j in range(i % 2 if n == 3 else i % 7, len(CALLS), 2 * step):
                    yield ('f', f, CALLS[j], (i + j) % 3, (i + j) % 2, True)


def evaluate(case, ctx):
    if case[0] == 'misc':
        MISC[case[1]](ctx)
        ctx.add('evaluations')
        return
    _, f, call, sk, dk, isdoc = case
    r = judge(f, isdoc, call, SRC[sk], DST[dk])
    ctx.add('evaluations')
    ctx.add(r)
    if any(n not in SKIP and (n[3] or n[1] or n[5] != 'yes') for n in f):
        ctx.add('distinct_nontrivial')


# ------------------------------------------------------------- single scenarios
def m_schema_kinds(ctx):
    """ The schema given by name or path. """
    p = os.path.join(scratch(), 'c14s-%d.xml' % os.getpid())
    with open(p, 'w') as f:
        f.write(M.VS_XML)
    for sch in (p, pathlib.Path(p)):
        for call in CALLS:
            for f in ([LEAVES[0]], [LEAVES[18]], [MASTERS and ('Grp', (), None, (LEAVES[0], LEAVES[7]), None, 'yes')]):
                judge(f, True, call, 'bytes', 'bio', root=core.loadSchema(p).document.__name__, schema=sch)


def m_wrong_root(ctx):
    for tag in ('WrongDocument', 'Mine', 'document', 'vsDocument'):
        for u in (True, False):
            x = ET.Element(tag, {'id': '0x4FFE'})
            x.append(xml(LEAVES[0]))
            try:
                util.xml2ebml(x, io.BytesIO(), obs.vs(), unknown=u)
            except NameError:
                continue
            raise Viol('XML with root <%s> was converted' % tag)


def m_loadxml(ctx):
    """ loadXml() gives the document the XML describes. """
    nodes = [LEAVES[0], ('Grp', (), None, (LEAVES[10], LEAVES[13], LEAVES[18]), None, 'yes'), LEAVES[16], LEAVES[11]]
    x = ET.Element(obs.vs().document.__name__)
    for n in nodes:
        x.append(xml(n))
    want = [obs.node_content(n) for n in M.parse(convert(x, (None, False, True), 'el', 'bio'), M.VS)[0]]
    base = os.path.join(scratch(), 'c14l-%d' % os.getpid())
    old, tempfile.tempdir = tempfile.tempdir, scratch()
    try:
        for sk in SRC:
            for dest in (':memory:', None, base + '.ebml', pathlib.Path(base + '2.ebml')):
                doc = util.loadXml(source(x, sk, base + '.xml'), obs.vs(), dest)
                r = [obs.content(e) for e in doc]
                require(r == want, 'loadXml from %s to %r gives %r', sk, dest, r)
                require(doc.version == 3 and doc.type == 'vtest', 'loadXml: no default header')
                if dest == base + '.ebml':
                    with open(dest, 'rb') as f:
                        require(f.read().startswith(b'\x1aE\xdf\xa3'), 'loadXml did not write the named file')
                doc.close()
        # the schema given by name or path
        p = base + '-schema.xml'
        with open(p, 'w') as f:
            f.write(M.VS_XML)
        x.tag = core.loadSchema(p).document.__name__
        for sch in (p, pathlib.Path(p), core.loadSchema(p)):
            for dest in (':memory:', None, base + '.ebml', pathlib.Path(base + '2.ebml')):
                doc = util.loadXml(x, sch, dest)
                r = [obs.content(e) for e in doc]
                require(r == want and doc.schema is core.loadSchema(p), 'loadXml with schema %r to %r gives %r', sch, dest, r)
                doc.close()
    finally:
        tempfile.tempdir = old


def m_ebml_root(ctx):
    """ An EBML element as the root is itself the header. """
    n = ('EBML', (), None, (('DocType', (('value', 'q'),), None, None, b'q', 'yes'),), None, 'yes')
    for call in CALLS:
        judge([n], False, call, 'bytes', 'bio')
        judge([n, LEAVES[0]], True, call, 'bytes', 'bio')
        judge([LEAVES[0], n], True, call, 'bytes', 'bio')


def m_deep(ctx):
    """ Nesting, with a width requested at every level. """
    for w in range(1, 9):
        for call in CALLS:
            n = ('Sub', (('sizeLength', str(w)),), None, (LEAVES[0],), None, 'yes')
            for lv in range(12):
                n = ('Sub', (('sizeLength', str((w + lv) % 8 + 1)),), None, (n, LEAVES[1 + lv % 20]), None, 'yes')
            try:
                judge([n], True, call, 'el', 'bio')
            except Viol:
                raise


def m_exact(ctx):
    """ Containers whose size is next to what each width can hold. """
    for w in (1, 2, 3):
        top = (1 << (7 * w)) - 2
        for size in (top - 3, top - 2, top - 1, top, top + 1, top + 2):
            for call in ((w, False, True), (None, False, True)):
                body = b'x' * (size - 1 - M.min_width(size))
                if len(M.build([('B', body, None)])[0]) != size:
                    body = b'x' * (len(body) + size - len(M.build([('B', body, None)])[0]))
                attrs = () if call[0] else (('sizeLength', str(w)),)
                n = ('Grp', attrs, None, (leaf('B', body, b64(body)),), None, 'yes')
                x = xml(n)
                try:
                    b = convert(x, call, 'el', 'bio')
                except ValueError:
                    require(size > top, 'a container of %d bytes was refused width %d', size, w)
                    continue
                match([n], M.parse(b, M.VS)[0], b, call[0], False, True)


def m_text(ctx):
    """ Text in elements that are not binary, and what follows elements, is of no concern. """
    for text in ('words', '  ', '5', '\n\t', 'YWJj', '&<'):
        for tag, value, payload in (('S', '', b''), ('S', 'ab', b'ab'), ('Z', '', b''), ('Z', 'h', b'h'), ('U', '5', b'\5'), ('I', '-1', b'\xff'), ('Grp', None, b''), ('Sub', None, b'')):
            for how in range(4):
                e = ET.Element('Grp')
                c = ET.SubElement(e, tag, {} if value is None else {'value': value})
                if how & 1:
                    c.text = text
                if how & 2:
                    c.tail = e.text = text
                out = io.BytesIO()
                util.xml2ebml(e, out, obs.vs(), headers=False)
                node = M.parse(out.getvalue(), M.VS)[0][0].children[0]
                got = out.getvalue()[node.poff:node.poff + node.size]
                require(got == payload, '<%s value=%r> with the text %r is written as %r', tag, value, text if how & 1 else None, got)
                ctx.add('evaluations')


MISC = [m_text, m_schema_kinds, m_wrong_root, m_loadxml, m_ebml_root, m_deep, m_exact]
