""" C17: a schema definition means what it says. """
import io
import itertools
import os
import pathlib
from xml.sax.saxutils import quoteattr
from mc.base import Viol, require, scratch
from mc import model as M, obs, docs
from ebmlite import core

ID = 'C17'
LEVEL = 'bounded_exhaustive'
RULE = ('Every schema of the grammar is parsed and compared with an independent reading of the definition: lookups, every '
        'attribute of every element type, and for every (container, element) pair whether a container of unknown size takes '
        'the element in. Schemata that must be refused are. Non-trivial: schemata with a re-definition or an attribute.')
BOUNDS = dict(quick='single definitions: 8 types x 6144 attribute sets, nested and legacy; all schema trees of up to 4 definitions over 26 node kinds (4: 12 kinds); 20 spellings of each flag; legacy tables of up to 3 definitions x types x levels; full definitions followed by every abbreviated one',
              thorough='also all trees of 4 definitions over 26 node kinds, of 5 over 12')

TYPES = sorted(M.KINDS)
LEG = {M.BASE[v]: k for k, v in M.LEGACY.items()}
BOOLS = [None, '1', '0', 'true', 'False', ' 1 ', 'T', '']
PRE = {'IntegerElement', 'UIntegerElement', 'FloatElement', 'DateElement'}


def tag(t, attrs, kids=''):
    a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs if v is not None)
    return '<%s%s>%s</%s>' % (t, a, kids, t) if kids else '<%s%s/>' % (t, a)


def boolean(v, default):
    v = v.strip() if v is not None else ''
    return default if not v else v[0] in '1tT'


def parse(xml, how=0):
    if how == 0:
        return core.parseSchema(xml, 'c17', reload=True)
    if how == 1:
        return core.Schema(io.BytesIO(xml.encode()), name='c17')
    path = os.path.join(scratch(), 'c17-%d.xml' % os.getpid())
    with open(path, 'w', encoding='utf-8') as f:
        f.write(xml)
    if how == 2:
        return core.Schema(path)
    return core.loadSchema(pathlib.Path(path), reload=True)


# --------------------------------------------------------------- single elements
def singles(part):
    """ One definition with every combination of attributes. """
    i = 0
    for t in TYPES:
        for mul, man, pre in itertools.product(BOOLS, repeat=3):
            for length in (None, '4', '0x10'):
                for glob, lev in ((None, None), ('1', None), ('0', None), ('true', None), (None, '-1'), (None, '1'), ('1', '2'), ('0', '-1')):
                    i += 1
                    if i % 16 == part:
                        yield ('one', t, mul, man, pre, length, glob, lev)


_default = {}


def check_flat(case, ctx):
    """ The legacy format: all in the root, whatever the levels say. """
    _, defs, bare = case
    body = ''.join(tag('element', [('name', 'N%d' % i), ('id', '0x%X' % k), ('type', LEG[t]), ('level', lev)]) for i, (k, t, lev) in enumerate(defs))
    s = parse('<table>%s</table>' % body, bare)
    ids = set(k for k, _, _ in defs)
    require(set(s.children) == ids and set(s.elements) == ids, '%s: children of the root %r, elements %r', body, s.children, s.elements)
    require(set(s.globals) == {k for k, _, lev in defs if lev == '-1'}, '%s: globals %r', body, s.globals)
    for i, (k, t, _) in enumerate(defs):
        require(s[k] is s['N%d' % i] and s[k].__base__ is getattr(core, t) and not s[k].children, '%s: 0x%X is %r with children %r', body, k, s[k].__mro__, s[k].children)


def check_single(case, ctx):
    _, t, mul, man, pre, length, glob, lev = case
    attrs = [('name', 'X'), ('id', '0x4FF0'), ('multiple', mul), ('mandatory', man), ('precache', pre), ('length', length), ('global', glob), ('level', lev)]
    pat = [('name', 'P'), ('id', '0xA0')]
    rest = tag('UIntegerElement', [('name', 'Y'), ('id', '81'), ('multiple', '1')])
    for how, xml in enumerate((
            '<Schema>%s%s</Schema>' % (tag('MasterElement', pat, rest), tag(t, attrs)),
            '<Schema>%s</Schema>' % tag('MasterElement', pat, tag(t, attrs) + rest),
            '<table>%s%s%s</table>' % (tag('element', pat + [('type', 'master'), ('level', '0')]), tag('element', attrs + [('type', LEG[t])]),
                                       tag('element', [('name', 'Y'), ('id', '81'), ('multiple', '1'), ('type', 'uinteger')])))):
        s = parse(xml)
        x = s['X']
        require(s[0x4FF0] is x and s.get('X') is x and s.get(0x4FF0) is x and 'X' in s and 0x4FF0 in s, '%s: lookups disagree', xml)
        require(s.get('Nope') is None and s.get('Nope', 5) == 5 and 'Nope' not in s and 0x4FF1 not in s, '%s: a name that does not exist is found', xml)
        require(issubclass(x, getattr(core, t)) and x.__base__ is getattr(core, t), '%s: type %r', xml, x.__mro__)
        isglob = boolean(glob, False) if glob is not None else lev == '-1'
        want = dict(name='X', id=0x4FF0, mandatory=boolean(man, False), precache=boolean(pre, t in PRE),
                    length=None if length is None else int(length, 0))
        if mul is not None and mul.strip():
            want['multiple'] = boolean(mul, None)
        else:
            # whatever the default is, it depends on nothing else
            if t not in _default:
                _default[t] = parse('<Schema>%s</Schema>' % tag(t, attrs[:2]), 1)['X'].multiple
            want['multiple'] = _default[t]
        for k, v in want.items():
            require(getattr(x, k) == v and type(getattr(x, k)) is type(v), '%s: %s is %r, expected %r', xml, k, getattr(x, k), v)
        require(x.schema is s, '%s: another schema', xml)
        if how == 2:
            require((0x4FF0 in s.globals) == isglob, '%s: global is %r', xml, 0x4FF0 in s.globals)
            continue
        # A container of unknown size followed by the element
        inside = allowed(s, 0xA0, 0x4FF0)
        require(inside == (isglob or how == 1), '%s: in P: %r', xml, inside)
        require(allowed(s, 0xA0, 0x81), '%s: Y is not in P', xml)
    ctx.add('evaluations', 3)


def allowed(s, master, eid):
    """ Does a container of unknown size take the element in? """
    date = eid in s and issubclass(s[eid], core.DateElement)
    data = M.id_bytes(master) + b'\xff' + M.id_bytes(eid) + (b'\x88' + bytes(8) if date else b'\x80')
    d = s.load(io.BytesIO(data), headers=True)
    try:
        n = [e.id for e in d]
    except Exception:
        return 'error'
    if n == [master]:
        return True
    require(n == [master, eid], 'P followed by 0x%X reads as %r', eid, n)
    return False


# ------------------------------------------------------------------ schema trees
# Node kinds: (type, attributes). Masters take children.
U, B, S, MA = 'UIntegerElement', 'BinaryElement', 'StringElement', 'MasterElement'
KINDS = [
    (MA, (('name', 'A'), ('id', '0xA0'))), (MA, (('name', 'A'),)), (U, (('name', 'X'), ('id', '0x81'), ('multiple', '1'))),
    (U, (('name', 'X'),)), (U, (('id', '0x81'),)), (MA, (('name', 'C'), ('id', '0x1F000001'), ('multiple', '1'))),
    (B, (('name', 'G'), ('id', '0x4ABC'), ('global', '1'))), (B, (('name', 'G'), ('id', '0x4ABC'))),
    (U, (('name', 'X'), ('id', '0x81'), ('multiple', '0'))), (U, (('name', 'X'), ('id', '0x82'))), (MA, (('id', '0xA0'),)),
    (S, (('name', 'X'),)),
    # only in the wide alphabet
    (U, (('name', 'W'), ('id', '0x81'))), (U, (('name', 'X'), ('id', '0x81'))), (U, (('name', 'X'), ('mandatory', '1'))), (U, (('name', 'X'), ('length', '4'))),
    (U, (('name', 'X'), ('precache', '0'))), ('IntegerElement', (('name', 'X'), ('id', '0x81'))), (U, ()), (U, (('id', '0x83'),)),
    (B, (('name', 'Void'), ('id', '0xEC'), ('global', '1'), ('multiple', '1'))), (B, (('name', 'Void'),)), ('OddElement', (('name', 'X'), ('id', '0x81'))),
    ('Metadata', (('name', 'M'),)), (U, (('name', '1X'), ('id', '0x84'))), (MA, (('name', 'C'),)),
]


class Refused(Exception):
    pass


def model(forest):
    """ {id: definition}, {parent id or None: ids}; Refused. """
    defs, names, kids, info = {}, {}, {None: set()}, {}

    def put(node, parent):
        t, attrs, sub = node
        if t == 'Metadata':
            return
        if t not in M.KINDS:
            raise Refused('type')
        a = dict(attrs)
        eid = int(a['id'], 16) if 'id' in a else None
        nm = a.get('name')
        old = defs.get(eid) if eid is not None else None
        old2 = defs[names[nm]] if nm in names else None
        if old or old2:
            if eid is not None and nm is not None and old is not old2:
                raise Refused('contradicting name or ID')
            old = old or old2
            if old['t'] != t:
                raise Refused('type differs')
            for k, v in a.items():
                if info[old['id']].get(k, v if k in ('id', 'name') else None) != v:
                    raise Refused('%s differs' % k)
            eid = old['id']
        else:
            if eid is None or nm is None or not (nm[0].isalpha() or nm[0] == '_'):
                raise Refused('no or invalid name or ID')
            defs[eid] = dict(t=t, id=eid, name=nm, multiple=a.get('multiple'), mandatory=boolean(a.get('mandatory'), False),
                             precache=boolean(a.get('precache'), t in PRE), length=int(a['length']) if 'length' in a else None, glob=boolean(a.get('global'), False))
            info[eid] = a
            names[nm] = eid
            if t == MA:
                kids[eid] = set()
        kids[parent].add(eid)
        if t == MA:
            for n in sub:
                put(n, eid)

    for n in forest:
        put(n, None)
    return defs, kids


def render(forest):
    return ''.join(tag(t, attrs, render(sub)) for t, attrs, sub in forest)


def forests(n, kinds):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for t, attrs in kinds:
            if k > 1 and t not in (MA, 'OddElement', 'Metadata'):
                continue
            for sub in forests(k - 1, kinds):
                for rest in forests(n - k, kinds):
                    yield [(t, attrs, sub)] + rest


def check_tree(case, ctx):
    _, forest, how = case
    xml = '<?xml version="1.0"?><!-- c --><Schema>%s</Schema>' % render(forest)
    try:
        defs, kids = model(forest)
    except Refused as r:
        try:
            parse(xml, how)
        except Exception:
            ctx.add('refused')
            return
        raise Viol('%s was accepted (%s)' % (xml, r))
    try:
        s = parse(xml, how)
    except Exception as e:
        raise Viol('%s was refused: %s: %s' % (xml, type(e).__name__, e))
    ctx.add('accepted')
    require(set(s.elements) == set(defs) and set(s.elementsByName) == {d['name'] for d in defs.values()}, '%s: elements %r', xml, s.elements)
    for eid, d in defs.items():
        x = s[eid]
        require(s[d['name']] is x, '%s: lookups disagree', xml)
        base = getattr(core, d['t'])
        if d['name'] == 'Void':
            require(issubclass(x, core.VoidElement), '%s: Void is %r', xml, x.__mro__)
        else:
            require(x.__base__ is base, '%s: %s has type %r', xml, d['name'], x.__mro__)
            require((x.precache, x.length) == (d['precache'], d['length']), '%s: %s precache %r, length %r', xml, d['name'], x.precache, x.length)
        require((x.name, x.id, x.mandatory) == (d['name'], eid, d['mandatory']), '%s: %s has name %r, ID %r, mandatory %r', xml, d['name'], x.name, x.id, x.mandatory)
        if d['multiple'] is not None:
            require(x.multiple is (d['multiple'] == '1'), '%s: %s multiple %r', xml, d['name'], x.multiple)
        require(x.schema is s, '%s: %s belongs to another schema', xml, d['name'])
    globs = {e for e, d in defs.items() if d['glob']}
    require(set(s.globals) == globs, '%s: globals %r', xml, s.globals)
    require(set(s.children) == kids[None], '%s: root elements %r', xml, s.children)
    for m in (e for e, d in defs.items() if d['t'] == MA):
        for e in list(defs) + [0x4FFE]:
            r = allowed(s, m, e)
            require(r is (e in kids[m] or e in globs), '%s: %s in %s: %r', xml, e, defs[m]['name'], r)
    ctx.add('evaluations')


# ------------------------------------------------------------------- invalid ones
def bad():
    ok = [('name', 'X'), ('id', '0x81')]
    for t in TYPES:
        for name in (None, '', ' ', '1X', '-X', '.X', '0'):
            yield '<Schema>%s</Schema>' % tag(t, [('name', name), ('id', '0x81')])
            yield '<Schema><MasterElement name="P" id="0xA0">%s</MasterElement></Schema>' % tag(t, [('name', name), ('id', '0x81')])
            yield '<table>%s</table>' % tag('element', [('name', name), ('id', '0x81'), ('type', LEG[t])])
        for eid in (None, '', ' ', '0x', 'zz', '0x81g', 'one', '1.5'):
            yield '<Schema>%s</Schema>' % tag(t, [('name', 'X'), ('id', eid)])
            yield '<Schema><MasterElement name="P" id="0xA0">%s</MasterElement></Schema>' % tag(t, [('name', 'X'), ('id', eid)])
            yield '<table>%s</table>' % tag('element', [('name', 'X'), ('id', eid), ('type', LEG[t])])
        for u in TYPES:
            if u != t:
                for again in (ok, ok[:1], ok[1:]):
                    yield '<Schema>%s%s</Schema>' % (tag(t, ok), tag(u, again))
                    yield '<table>%s%s</table>' % (tag('element', ok + [('type', LEG[t])]), tag('element', again + [('type', LEG[u])]))
    for typ in (None, '', 'int', 'INTEGER', 'utf8', 'UIntegerElement'):
        yield '<table>%s</table>' % tag('element', ok + [('type', typ)])
        yield '<table>%s%s</table>' % (tag('element', ok + [('type', 'binary')]), tag('element', ok + [('type', typ)]))
    for t in ('Element', 'IntElement', 'uintegerElement', 'UintegerElement', 'VoidElement', 'UnknownElement', 'DocumentElement'):
        yield '<Schema>%s</Schema>' % tag(t, ok)
        yield '<Schema><MasterElement name="P" id="0xA0">%s</MasterElement></Schema>' % tag(t, ok)
    for root in ('schema', 'EBMLSchema', 'Table', 'element', 'MasterElement'):
        yield '<%s>%s</%s>' % (root, tag(U, ok), root)
    yield from ('', ' ', '<Schema>', '<Schema></table>', 'text', '<Schema/><Schema/>')
    for k, v, w in (('multiple', '1', '0'), ('mandatory', '1', '0'), ('precache', '0', '1'), ('length', '4', '8'), ('global', '1', '0'), ('default', '1', '2')):
        for again in (ok, ok[:1], ok[1:]):
            for t in TYPES:
                yield '<Schema>%s%s</Schema>' % (tag(t, ok + [(k, v)]), tag(t, again + [(k, w)]))
                yield '<Schema>%s<MasterElement name="P" id="0xA0">%s</MasterElement></Schema>' % (tag(t, ok + [(k, v)]), tag(t, again + [(k, w)]))


    # names are told apart by case
    for t in TYPES:
        for n in ('x', 'X'):
            for m in (n.swapcase(), n + n.swapcase(), '_' + n):
                a, b, c = (tag(t, [('name', x), ('id', i)] if i else [('name', x)]) for x, i in ((n, '0x81'), (m, '0x81'), (m, None)))
                yield '<Schema>%s%s</Schema>' % (a, b)
                yield '<Schema>%s%s</Schema>' % (a, c)
                yield '<Schema>%s<MasterElement name="P" id="0xA0">%s</MasterElement></Schema>' % (a, b)
                yield '<Schema>%s%s%s</Schema>' % (a, tag(t, [('name', m), ('id', '0x82')]), b)
                yield '<Schema>%s%s%s</Schema>' % (a, tag(t, [('name', m), ('id', '0x82')]), tag(t, [('name', n), ('id', '0x82')]))


def good():
    """ (schema, expected element names). """
    ok = [('name', 'X'), ('id', '0x81'), ('multiple', '1'), ('length', '4')]
    for t in TYPES:
        for again in (ok, ok[:1], ok[1:2], ok[:2], ok[::-1]):
            yield '<Schema>%s%s</Schema>' % (tag(t, ok), tag(t, again)), ['X']
            yield '<table>%s%s</table>' % (tag('element', ok + [('type', LEG[t])]), tag('element', again + [('type', LEG[t])])), ['X']
        yield '<Schema><Info a="1"><X/></Info>%s<Notes/></Schema>' % tag(t, ok), ['X']
        yield '<Schema>text<!-- c --><?pi x?>%s tail</Schema>' % tag(t, ok), ['X']
        for name in ('x', '_x', 'X-1', 'X.1', '\xe9t\xe9', 'X Y', ' X ', 'CRC-32', 'Name', 'Element', 'UnknownElement'):
            yield '<Schema>%s</Schema>' % tag(t, [('name', name), ('id', '0x81')]), [name.strip()]
        for eid in ('81', '0x81', '0X81', ' 0x81 ', '0x0081'):
            yield '<Schema>%s</Schema>' % tag(t, [('name', 'X'), ('id', eid)]), ['X']
    for t in TYPES:
        yield '<Schema>%s%s%s</Schema>' % (tag(t, ok), tag(t, [('name', 'x'), ('id', '0x82')]), tag(t, ok)), ['X', 'x']
    yield '<Schema/>', []
    yield '<table/>', []


# (codec of the file, name declared)
ENCODINGS = [('utf-8', None), ('utf-8', 'utf-8'), ('utf-8-sig', None), ('utf-8-sig', 'UTF-8'), ('utf-16', None), ('utf-16', 'utf-16'),
             ('iso-8859-1', 'iso-8859-1'), ('iso-8859-1', 'ISO-8859-1'), ('cp1252', 'windows-1252'), ('ascii', 'us-ascii'), ('ascii', None), ('iso-8859-15', 'iso-8859-15')]
FORMS = ['plain', 'crlf', 'entity', 'quotes', 'doctype', 'charref', 'standalone']


def check_encoding(case, ctx):
    """ The same definitions, written in every encoding and way of writing XML. """
    _, codec, declared, form, legacy = case
    name, master = '\xc4pfel', 'M\xe9'
    if legacy:
        text = '<table><element name="%s" id="0xA0" type="master" multiple="1"/><element name="%s" id="0x81" type="uinteger" multiple="1" length="4"/></table>' % (master, name)
    else:
        text = '<Schema><MasterElement name="%s" id="0xA0" multiple="1"><UIntegerElement name="%s" id="0x81" multiple="1" length="4"/></MasterElement></Schema>' % (master, name)
    head = ''
    if form == 'crlf':
        text = text.replace('><', '>\r\n\t<').replace(' id', '\r\nid')
    elif form == 'entity':
        head = '<!DOCTYPE %s [<!ENTITY e "%s"><!ENTITY n "1">]>' % ('table' if legacy else 'Schema', name)
        text = text.replace(name, '&e;').replace('multiple="1"', 'multiple="&n;"')
    elif form == 'quotes':
        text = text.replace('"', "'")
    elif form == 'doctype':
        head = '<!DOCTYPE %s>' % ('table' if legacy else 'Schema')
    elif form == 'charref':
        text = text.replace('\xc4', '&#xC4;').replace('\xe9', '&#233;').replace('0x81', '&#48;x81')
    if declared or form == 'standalone':
        head = '<?xml version="1.0"%s%s?>' % (' encoding="%s"' % declared if declared else '', ' standalone="yes"' if form == 'standalone' else '') + head
    raw = (head + text).encode(codec, 'xmlcharrefreplace')
    path = os.path.join(scratch(), 'c17 \xe4 %s.xml' % codec)
    with open(path, 'wb') as f:
        f.write(raw)
    for how in ('load', 'path', 'schema', 'stream', 'bytes'):
        if how in ('load', 'path'):
            s = core.loadSchema(path if how == 'load' else pathlib.Path(path), reload=True)
        elif how == 'schema':
            s = core.Schema(path)
        elif how == 'stream':
            with open(path, 'rb') as f:
                s = core.Schema(f)
        else:
            s = core.parseSchema(io.BytesIO(raw), 'c17e', reload=True)
        where = '%r, %s' % (raw, how)
        require(set(s.elements) == {0x81, 0xA0} and set(s.elementsByName) == {name, master}, '%s: elements %r', where, s.elementsByName)
        x, m = s[name], s[master]
        require((x.id, x.name, x.__base__, x.multiple, x.length, m.multiple) == (0x81, name, core.UIntegerElement, True, 4, True), '%s: %r', where, vars(x))
        require(set(m.children or ()) == (set() if legacy else {0x81}) and s.children == ({0x81, 0xA0} if legacy else {0xA0}), '%s: children %r, %r', where, m.children, s.children)
        if how in ('load', 'path', 'schema', 'stream'):
            require(s.filename == os.path.realpath(path), '%s: file %r', where, s.filename)
    ctx.add('evaluations')


FILES = ['mide_ide.xml', 'matroska.xml', 'mide_manifest.xml', 'mide_config_ui.xml']


def check_shipped(name, ctx):
    """ The shipped schemata against the independent reader. """
    path = os.path.join(os.path.dirname(core.schemata.__file__), name)
    with open(path, encoding='utf-8') as f:
        text = f.read()
    rs = M.RefSchema(text.encode())
    for s in (core.loadSchema(name), core.Schema(path)):
        require(set(s.elements) == set(rs.byId), '%s: other elements', name)
        for eid, d in rs.byId.items():
            x = s[eid]
            require((x.name, x.id, x.mandatory, x.precache, x.length) == (d.name, eid, d.mandatory, d.precache, d.length), '%s: %s is %r', name, d.name, vars(x))
            require('multiple' not in d.attrs or x.multiple is d.multiple, '%s: %s multiple %r', name, d.name, x.multiple)
            require(issubclass(x, getattr(core, M.BASE[d.kind])), '%s: %s has type %r', name, d.name, x)
            require(not d.children or set(x.children) == d.children, '%s: %s has children %r', name, d.name, x.children)
        require(set(s.globals) == rs.globals and set(s.children) == rs.roots, '%s: globals or roots', name)
        require(s.type == rs.default('DocType') and s.version == (int(rs.default('DocTypeVersion')) if rs.default('DocTypeVersion') else None), '%s: type %r', name, s.type)


def shards(tier):
    s = [('one', i) for i in range(16)] + [('bad',), ('good',), ('flag',), ('flat',)] + [('again', t) for t in TYPES] + [ ('ship',), ('enc',)]
    s += [('tree', 1, 26, 0, 1), ('tree', 2, 26, 0, 1)] + [('tree', 3, 26, i, 16) for i in range(16)] + [('tree', 4, 12, i, 24) for i in range(24)]
    if tier == 'thorough':
        s += [('tree', 4, 26, i, 64) for i in range(64)] + [('tree', 5, 12, i, 64) for i in range(64)]
    return s


def cases(shard, tier):
    if shard[0] == 'one':
        yield from singles(shard[1])
    elif shard[0] == 'bad':
        for x in bad():
            yield ('bad', x)
    elif shard[0] == 'good':
        for x, n in good():
            yield ('good', x, n)
    elif shard[0] == 'again':
        # a full definition, then an abbreviated one elsewhere
        i = 0
        for man, mul, pre, length, glob in itertools.product((None, '0', '1'), (None, '0', '1'), (None, '0', '1'), (None, '4'), (None, '0', '1')):
            extra = tuple((k, v) for k, v in (('mandatory', man), ('multiple', mul), ('precache', pre), ('length', length), ('global', glob)) if v is not None)
            full = (('name', 'X'), ('id', '0x81')) + extra
            for brief in [full[:1], full[1:2], full[:2], full] + [full[:1] + (e,) for e in extra] + [full[1:2] + extra[1:]] * (len(extra) > 2):
                one, two = (shard[1], full, []), (shard[1], brief, [])
                for forest in ([(MA, (('name', 'A'), ('id', '0xA0')), [one]), two], [one, (MA, (('name', 'A'), ('id', '0xA0')), [two])],
                               [(MA, (('name', 'A'), ('id', '0xA0')), [one, (MA, (('name', 'C'), ('id', '0xA1')), [two]), two])]):
                    i += 1
                    yield ('tree', forest, i % 4 if tier == 'thorough' else i % 2)
    elif shard[0] == 'flag':
        for attr in ('multiple', 'mandatory', 'precache', 'global'):
            for v in ('true', 'True', 'TRUE', 't', '1', ' true', 'false', 'False', 'FALSE', 'f', '0', ' 0 ', 'no', 'n', 'No', '2', '9', '-1', 'x', '?'):
                for t in TYPES:
                    yield ('flag', attr, v, t)
    elif shard[0] == 'flat':
        for n in (1, 2, 3):
            for ks in itertools.permutations((0x1A45DFA3, 0x4286, 0xA0, 0xEC), n):
                for ts in itertools.product((MA, U), repeat=n):
                    for ls in itertools.product((None, '-1', '0', '1', '2')[:5 if n < 3 or tier == 'thorough' else 4], repeat=n):
                        yield ('flat', tuple(zip(ks, ts, ls)), n % 2)
    elif shard[0] == 'enc':
        for e in ENCODINGS:
            for f in FORMS:
                for legacy in (0, 1):
                    yield ('enc',) + e + (f, legacy)
    elif shard[0] == 'ship':
        for f in FILES:
            yield ('ship', f)
    else:
        _, n, k, part, parts = shard
        first = 0
        for i, f in enumerate(forests(n, KINDS[:k])):
            if i % parts != part:
                continue
            yield ('tree', f, i % 4 if n < 3 else i % 2)


def evaluate(case, ctx):
    if case[0] == 'one':
        check_single(case, ctx)
        ctx.add('distinct_nontrivial')
    elif case[0] == 'tree':
        check_tree(case, ctx)
        ctx.add('distinct_nontrivial')
    elif case[0] == 'flat':
        check_flat(case, ctx)
        ctx.add('distinct_nontrivial')
    elif case[0] == 'bad':
        for how in range(4):
            try:
                parse(case[1], how)
            except Exception:
                continue
            raise Viol('%s was accepted' % case[1])
        ctx.add('refused')
    elif case[0] == 'flag':
        _, attr, v, t = case
        s = [parse('<Schema><%s name="X" id="0x4FF0" %s="%s"/></Schema>' % (t, attr, v)), parse('<table><element type="%s" name="X" id="0x4FF0" level="0" %s="%s"/></table>' % (LEG[t], attr, v))]
        want = v.strip().lower() in ('true', 't', '1')
        for sch in s:
            got = 0x4FF0 in sch.globals if attr == 'global' else getattr(sch['X'], attr)
            require(got is want, '%s="%s" of %s gives %r', attr, v, t, got)
        ctx.add('distinct_nontrivial')
    elif case[0] == 'good':
        for how in range(4):
            s = parse(case[1], how)
            require(sorted(s.elementsByName) == sorted(case[2]), '%s: elements %r', case[1], s.elementsByName)
            for n in case[2]:
                require(n == 'x' and s[n].id == 0x82 and s[n] is not s['X'] or s[n].id == 0x81 and s[0x81] is s[n], '%s: ID %r', case[1], s[n].id)
        ctx.add('accepted')
    elif case[0] == 'enc':
        check_encoding(case, ctx)
    else:
        check_shipped(case[1], ctx)
    ctx.add('evaluations')
