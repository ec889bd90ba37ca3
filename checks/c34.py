""" C34: the schemata that come with ebmlite read and write their formats. """
import io
import os
from xml.etree import ElementTree as ET
from mc.base import Viol, require, scratch
from mc import docs, formats, model as M, obs
from ebmlite import core, util

ID = 'C34'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all elements of the shipped schemata x all their places x values x forms, and of all pairs of neighbours in all containers, on the real code against a table of the published formats'
RULE = ('For each of the four schemata, every element of the published format (mc/formats.txt) is looked up; put in every container it belongs to, with values of every form, all containers sized or unsized, '
        'and read, verified, printed, converted to XML and back, and encoded from the same data. In every container of unknown size every element that belongs there is read before and after every other, and the container ended by a root element. '
        'Each schema is loaded in several ways from several places, listed, and its default header compared. Non-trivial: documents with an element of the format below the root.')
BOUNDS = dict(quick='585 elements at all of their places x 3-9 payloads x 2 forms; all pairs of neighbours in all containers',
              thorough='585 elements at all of their places x 3-9 payloads x 2 forms; all pairs of neighbours in all containers, all triples of what is declared in each')
ASSUMPTIONS = ['further elements and places may be added to a schema; which defaults elements outside the header have is left open',
               'the table of Matroska elements follows the published specification up to version 3 as far as the schema went; those of the MIDE formats record what their files have used']

F = formats.FORMATS
PAY = {
    'int': [b'\xfb', b'', b'\x80' + bytes(7), b'\x7f\xff\xff'],
    'uint': [b'\xc8', b'', b'\xff' * 8, b'\x01\x00'],
    'float': [b'\x3f\xe0' + bytes(6), b'', docs.F32, b'\x7f\xf0' + bytes(6)],
    'string': [b'text', b'', b'a & <b>', b'x' * 200],
    'utf8': ['h\xe9 \u20ac'.encode(), b'', b'a & <b>', b'y' * 200],
    'date': [docs.DATE, bytes(8)],
    'binary': [b'\x01\xff', b'', b'\0', b'\x1a\x45\xdf\xa3\x80', bytes(range(200))],
    'void': [b'\xff\xff', b''],
    'master': [[], [('Void', b'\xff', None)]],
}


def shards(tier):
    out = []
    for f in sorted(F):
        out.append(('load', f))
        n = 8 if f == 'mide_config_ui' else 3
        out += [('el', f, i, n) for i in range(n)] + [('near', f, i, n) for i in range(n)]
        if tier == 'thorough':
            out += [('tri', f, c) for c in sorted(F[f].chains)]
    return out


def cases(shard, tier):
    fmt = F[shard[1]]
    if shard[0] == 'load':
        for how in ('plain', 'package', 'path', 'schema', 'parse', 'elsewhere', 'twice', 'list', 'header'):
            yield ('load', shard[1], how)
    elif shard[0] == 'el':
        for eid in sorted(fmt.byId)[shard[2]::shard[3]]:
            yield ('el', shard[1], eid)
    elif shard[0] == 'tri':
        for a in sorted(fmt.byId[shard[2]].children):
            yield ('tri', shard[1], shard[2], a)
    else:
        for eid in sorted(fmt.chains)[shard[2]::shard[3]]:
            yield ('near', shard[1], eid)


_schemas = {}


def schema(f):
    if f not in _schemas:
        _schemas[f] = core.loadSchema(f + '.xml')
    return _schemas[f]


def nest(fmt, chain, specs, width):
    for pid in reversed(chain):
        specs = [(fmt.byId[pid].name, specs, width)]
    return specs


def read(f, sch, fmt, specs, what, more=True):
    data, nodes = M.build(specs, fmt)
    doc = sch.load(io.BytesIO(data), headers=True)
    try:
        obs.check_all(doc, nodes, data, schema=sch)
        if more:
            require(sch.verify(data) is True, 'not accepted')
            got = [(e.name, e.id) for e in util.flatiter(doc)]
            require(got == [(n.name, n.id) for n in M.walk(nodes)], 'read flat it is %r', got)
            out = io.StringIO()
            util.pprint(doc, out=out)
            for n in M.walk(nodes):
                require('%s (ID 0x%X)' % (n.name, n.id) in out.getvalue(), 'printed, it has no %s: %r', n.name, out.getvalue())
    except Viol as e:
        raise Viol('%s, %s: %s' % (f, what, e))
    except Exception as e:
        raise Viol('%s, %s: %r' % (f, what, e))
    return data, nodes, doc


def convert(f, sch, fmt, nodes, doc, what):
    """ To XML, through text, and back. """
    try:
        x = ET.fromstring(ET.tostring(util.toXml(doc)))
        el = list(x)
        for n in M.walk(nodes):
            require(el and any(e.tag == n.name for e in x.iter()), 'its XML has no %s', n.name)
        out = io.BytesIO()
        util.xml2ebml(x, out, sch, headers=False)
        back, end = M.parse(out.getvalue(), fmt)
        a, b = [M_content(n) for n in nodes], [M_content(n) for n in back]
        require(end == len(out.getvalue()) and a == b, 'through XML it becomes %r, was %r', b, a)
    except Viol as e:
        raise Viol('%s, %s: %s' % (f, what, e))
    except Exception as e:
        raise Viol('%s, %s: converting raised %r' % (f, what, e))


def M_content(n):
    return obs.node_content(n)


def plain(nodes):
    """ The same as data for encode(). """
    return [(n.name, (plain(n.children) or {}) if n.children is not None else n.value) for n in nodes]


def element(case, ctx):
    _, f, eid = case
    fmt, sch = F[f], schema(f)
    d = fmt.byId[eid]
    where = '%s: %s (0x%X)' % (f, d.name, eid)
    for key in (eid, d.name):
        require(key in sch and sch[key] is sch.get(key) is sch[eid], '%s is not found by %r', where, key)
    cls = sch[eid]
    require((cls.id, cls.name) == (eid, d.name), '%s is defined as %s (%r)', where, cls.name, cls.id)
    require(issubclass(cls, obs.BASES[d.kind]) and cls.dtype is M.DTYPE[d.kind], '%s has type %r, not %s', where, cls.__mro__, d.kind)
    require((cls.length or None) == d.length, '%s has the length %r, not %r', where, cls.length, d.length)
    require(cls.multiple is d.multiple, '%s %s repeat', where, 'may not' if d.multiple else 'may')
    for p in fmt.places[eid]:
        chain = () if p in '/*' else fmt.chains.get(fmt.byName[p].id)
        require(chain is not None, 'the format has no way to %s', p)
        for width in (None, -1):
            pays = PAY[d.kind]
            if d.length:
                pays = [(x if isinstance(x, list) else x[:d.length].rjust(d.length, b'\1')) for x in pays if d.kind != 'float' or len(x) == d.length] or [bytes(d.length)]
            for pay in pays:
                what = '%s in %s, payload %r, containers of %s size' % (d.name, '/'.join(fmt.byId[c].name for c in chain) or 'the root', pay[:20], 'unknown' if width else 'known')
                specs = nest(fmt, chain, [(d.name, pay, None)], width)
                data, nodes, doc = read(f, sch, fmt, specs, what)
                ctx.add('evaluations')
                ctx.add('distinct_nontrivial', 1 if chain else 0)
                if d.kind == 'void' or d.kind == 'master' and pay:
                    continue
                header = chain and fmt.byId[chain[0]].name == 'EBML' or d.name == 'EBML'
                if width is None:
                    if not header:
                        convert(f, sch, fmt, nodes, doc, what)
                    if pay or d.kind in ('master', 'binary', 'string', 'utf8'):
                        try:
                            raw = sch.encodes(plain(nodes))
                        except Exception as e:
                            raise Viol('%s, %s: encoding %r raised %r' % (f, what, plain(nodes), e))
                        back, end = M.parse(raw, fmt)
                        require(end == len(raw) and [M_content(n) for n in back] == [M_content(n) for n in nodes], '%s, %s: encoding %r gives %r', f, what, plain(nodes), raw)
                        ctx.add('evaluations')
            if d.multiple and not header_of(fmt, d, chain):
                one = small(fmt, eid)
                specs = nest(fmt, chain, [one] * 3, None)
                data, nodes = M.build(specs, fmt)
                try:
                    raw = sch.encodes(plain(nodes))
                except Exception as e:
                    raise Viol('%s: three %s in %s: %r' % (f, d.name, p, e))
                back, end = M.parse(raw, fmt)
                require(end == len(raw) and [M_content(n) for n in back] == [M_content(n) for n in nodes], '%s: three %s in %s are encoded as %r', f, d.name, p, raw)
                ctx.add('evaluations')
                # the same as a list of values, and read again as one
                vals = [n.value if n.children is None else plain(n.children) or {} for n in level(nodes, len(chain))]
                try:
                    listed = cls.encode(vals)
                    doc = sch.loads(bytes(listed))
                    twin = sch.loads(M.build([one] * 3, fmt)[0])
                    require([e.getRaw() for e in doc] == [e.getRaw() for e in twin], '%s: a list of three is encoded as %r', where, listed)
                    got = doc.dump()
                    require(list(got) == [d.name] and type(got[d.name]) is list and len(got[d.name]) == 3, '%s: three of them are dumped as %r', where, got)
                except Viol:
                    raise
                except Exception as e:
                    raise Viol('%s: a list of three %r: %r' % (where, vals, e))


def level(nodes, depth):
    for _ in range(depth):
        nodes = nodes[0].children
    return nodes


def header_of(fmt, d, chain):
    return chain and fmt.byId[chain[0]].name == 'EBML' or d.name == 'EBML' or d.kind == 'void'


def small(fmt, eid):
    d = fmt.byId[eid]
    p = PAY[d.kind][0]
    return (d.name, p[:d.length] if d.length and p else p, None)


def near(case, ctx):
    _, f, eid = case
    fmt, sch = F[f], schema(f)
    chain = fmt.chains[eid]
    kids = sorted(fmt.byId[eid].children | fmt.globals)
    inside = {k for c in chain for k in fmt.byId[c].children} | fmt.globals
    ends = [r for r in sorted(fmt.roots) if r not in inside]
    for i, a in enumerate(kids):
        for b in kids:
            specs = nest(fmt, chain, [small(fmt, a), small(fmt, b)], -1)
            if fmt.byId[b].kind == 'master' and b != a:
                # this one unsized, too: what belongs to it, and then the other
                n, p, _ = small(fmt, b)
                if a not in fmt.byId[b].children and a not in fmt.globals:
                    specs = nest(fmt, chain, [small(fmt, a), (n, [], -1), small(fmt, a)], -1)
            end = ends[i % len(ends)] if ends else None
            if end is not None:
                specs = specs + [small(fmt, end)]
            what = '%s and %s in %s, all of unknown size%s' % (fmt.byId[a].name, fmt.byId[b].name, '/'.join(fmt.byId[c].name for c in chain), ', then %s' % fmt.byId[end].name if end is not None else '')
            read(f, sch, fmt, specs, what, more=False)
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')


def three(case, ctx):
    _, f, eid, a = case
    fmt, sch = F[f], schema(f)
    kids = sorted(fmt.byId[eid].children)
    for b in kids:
        for c in kids:
            specs = nest(fmt, fmt.chains[eid], [small(fmt, a), small(fmt, b), small(fmt, c)], -1)
            read(f, sch, fmt, specs, '%s in %s' % ([fmt.byId[i].name for i in (a, b, c)], fmt.byId[eid].name), more=False)
            ctx.add('evaluations')
            ctx.add('distinct_nontrivial')


def loading(case, ctx):
    _, f, how = case
    fmt = F[f]
    name = f + '.xml'
    path = os.path.join(os.path.dirname(core.schemata.__file__), name)
    here = os.getcwd()
    try:
        if how == 'plain':
            s = core.loadSchema(name)
        elif how == 'package':
            s = core.loadSchema(os.path.join('{ebmlite.schemata}', name), True)
        elif how == 'path':
            s = core.loadSchema(path, True)
        elif how == 'schema':
            s = core.Schema(path)
        elif how == 'parse':
            with open(path, 'rb') as src:
                s = core.parseSchema(src.read().decode(), name, True)
        elif how == 'elsewhere':
            os.chdir(scratch())
            s = core.loadSchema(name, reload=True)
        elif how == 'list':
            paths = [p for ps in core.listSchemata().values() for p in ps]
            require(any(os.path.realpath(str(p)) == os.path.realpath(path) for p in paths), 'the listing %r has no %s', paths, path)
            s = core.loadSchema(name)
        else:
            s = core.loadSchema(name)
            require(core.loadSchema(name) is s, '%s: loaded twice it is two', f)
    finally:
        os.chdir(here)
    require((s.type, s.version) == (fmt.defaults['DocType'], int(fmt.defaults['DocTypeVersion'])), '%s: type %r, version %r', f, s.type, s.version)
    for eid, d in fmt.byId.items():
        require(eid in s and s[eid].name == d.name and d.name in s and s[d.name].id == eid and issubclass(s[eid], obs.BASES[d.kind]), '%s (%s): %s (0x%X) is %r', f, how, d.name, eid, s.get(eid))
        ctx.add('evaluations')
    raw = s.encodes({}, headers=True)
    nodes, end = M.parse(raw, fmt)
    require(end == len(raw) and len(nodes) == 1 and nodes[0].name == 'EBML', '%s: header %r', f, raw)
    got = {n.name: str(n.value) for n in nodes[0].children}
    require(got == {k: v for k, v in fmt.defaults.items() if k in got} and set(got) >= {'DocType', 'DocTypeVersion', 'DocTypeReadVersion'}, '%s: the header says %r, the format %r', f, got, fmt.defaults)
    doc = s.load(io.BytesIO(raw))
    require((doc.type, doc.version) == (s.type, s.version) and list(doc) == [], '%s: a document has type %r, version %r', f, doc.type, doc.version)
    ctx.add('distinct_nontrivial')


def evaluate(case, ctx):
    if case[0] == 'el':
        element(case, ctx)
    elif case[0] == 'near':
        near(case, ctx)
    elif case[0] == 'tri':
        three(case, ctx)
    else:
        loading(case, ctx)
