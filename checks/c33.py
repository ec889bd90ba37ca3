""" C33: schemata and documents say what they are and where they came from. """
import io
import itertools
import os
import pathlib
import zipfile
from mc.base import Viol, require, scratch
from mc import model as M, streams
from ebmlite import core, util
from xml.etree import ElementTree as ET

ID = 'C33'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all definitions of a bounded set x all ways of giving them x file and given names, and of documents x streams x names, against a model of names and sources'
RULE = ('Every definition (with and without default document type and version, in both formats) is given in every way (text, bytes, path, open file, file in an archive, streams with odd names; to Schema, parseSchema or loadSchema), '
        'under every file name and given name; its name, file, type, version, lookups, document class and text form are compared with a model. Documents of these schemata are loaded from every kind of stream under every name, '
        'and what they, their elements and their XML say of themselves is compared too. Non-trivial: all cases.')
BOUNDS = dict(quick='6 document types x 5 versions x 2 formats x 6 file names x 4 given names x 13 ways; documents: 24 kinds of stream x 8 file names x 4 given names x 3 loads x 4 schemata',
              thorough='6 document types x 5 versions x 2 formats x 10 file names x 6 given names x 13 ways; documents: 24 kinds of stream x 13 file names x 6 given names x 3 loads x 6 schemata')
ASSUMPTIONS = ['the effect of an empty given name is left open, as are the text forms but for the name and the origin in them']

TYPES = [None, 'own', 'Mixed case-1', '\xe9t\xe9', 'a.b', '']
VERSIONS = [None, '3', '0', '12345678901', 'x']
FILES = ['plain.xml', 'two.dots.xml', 'noext', '..odd', 'Sp ace.XML', '\xe9\u20ac.xml', '.hidden.xml', 'UPPER.xml', 'own.xml', 'a{b.xml']
NAMES = [None, 'given', 'Given Name.xml', '\xe9{}%s', 'x' * 70, 'own']
WAYS = ['str', 'path', 'rel', 'text', 'bytesio', 'open', 'opentext', 'raw', 'named', 'namedpath', 'fd', 'zip', 'load']
SETS = [(None, None), ('own', '3'), ('Mixed case-1', None), (None, '7'), ('a.b', '0'), ('\xe9t\xe9', '1')]
DOCFILES = ['plain.ebml', 'two.dots.ebml', 'noext', '..odd', 'Sp ace.MKV', '\xe9\u20ac.ide', '.hidden', '.hidden.ide', 'x.', 'own.xml', 'UPPER', '%s{}.ebml', "q'uote\"s.ide"]


def definition(typ, version, legacy):
    if legacy:
        parts = ['<element name="EBML" level="0" id="0x1A45DFA3" type="master" mandatory="1"/>']
        if typ is not None:
            parts.append('<element name="DocType" level="1" id="0x4282" type="string" default="%s"/>' % typ)
        else:
            parts.append('<element name="DocType" level="1" id="0x4282" type="string"/>')
        if version is not None:
            parts.append('<element name="DocTypeVersion" level="1" id="0x4287" type="uinteger" default="%s"/>' % version)
        parts.append('<element name="U" level="0" id="0x81" type="uinteger"/><element name="Void" level="-1" id="0x%X" type="binary"/>' % void_id(version))
        return '<table>%s</table>' % ''.join(parts)
    inner = ''
    if typ is not None:
        inner += '<StringElement name="DocType" id="0x4282" default="%s"/>' % typ
    if version is not None:
        inner += '<UIntegerElement name="DocTypeVersion" id="0x4287" default="%s"/>' % version
    return '<Schema><MasterElement name="EBML" id="0x1A45DFA3">%s</MasterElement><UIntegerElement name="U" id="0x81"/><BinaryElement name="Void" id="0x%X" global="1"/></Schema>' % (inner, void_id(version))


def void_id(version):
    """ Void is known by its name, whatever its ID. """
    return 0xEC if version is None else 0xED if version == '3' else 0x4FFD if version == '0' else 0xEC


def stem(path):
    """ The base name without its last suffix; names that only begin with a dot have none. """
    base = path.rpartition('/')[2]
    head, dot, _ = base.rpartition('.')
    return head if dot and head.strip('.') else base


class Named(io.BytesIO):
    name = None


def shards(tier):
    return [('s', w, i) for w in WAYS for i in range(2)] + [('d', k) for k in streams.KINDS]


def cases(shard, tier):
    deep = tier == 'thorough'
    if shard[0] == 's':
        for i, (t, v, legacy, f, n) in enumerate(itertools.product(TYPES, VERSIONS, (False, True), FILES if deep else FILES[:6], NAMES if deep else NAMES[:4])):
            if i % 2 == shard[2]:
                yield ('s', shard[1], t, v, legacy, f, n)
    else:
        for (t, v), f, n, how in itertools.product(SETS[:6 if deep else 4], DOCFILES if deep else DOCFILES[:8], NAMES if deep else NAMES[:4], ('load', 'doc', 'call')):
            yield ('d', shard[1], t, v, f, n, how)


def evaluate(case, ctx):
    ctx.add('evaluations')
    ctx.add('distinct_nontrivial')
    if case[0] == 's':
        return schema_case(ctx, *case[1:])
    return document_case(ctx, *case[1:])


def folder():
    d = os.path.join(os.path.realpath(scratch()), 'c33-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def schema_case(ctx, way, typ, version, legacy, fname, given):
    xml = definition(typ, version, legacy)
    d = folder()
    path = os.path.join(d, fname)
    if way == 'load' and '{' in fname:
        return
    with open(path, 'w', encoding='utf-8') as f:
        f.write(xml)
    here = os.getcwd()
    toclose = []
    made = None
    kw = dict(name=given) if given is not None else {}
    known = set(core.SCHEMATA)
    try:
        os.chdir(d)
        if way in ('str', 'rel', 'path'):
            src = {'str': path, 'rel': fname, 'path': pathlib.Path(fname)}[way]
        elif way == 'text':
            src = io.StringIO(xml)
        elif way == 'bytesio':
            src = io.BytesIO(xml.encode())
        elif way in ('named', 'namedpath'):
            src = Named(xml.encode())
            src.name = path if way == 'named' else pathlib.Path(fname)
        elif way == 'zip':
            with zipfile.ZipFile(os.path.join(d, 'z.zip'), 'w') as z:
                z.writestr(fname, xml)
            zf = zipfile.ZipFile(os.path.join(d, 'z.zip'))
            src = zf.open(fname)
            toclose += [src, zf]
        elif way == 'load':
            src = None
        else:
            src = open(path, 'rb') if way == 'open' else open(path, 'rb', buffering=0) if way == 'raw' else open(path, encoding='utf-8') if way == 'opentext' else open(os.open(path, os.O_RDONLY), 'rb')
            toclose.append(src)
        hasfile = way not in ('text', 'bytesio', 'fd')
        for maker in ('load',) if way == 'load' else ('Schema', 'parse'):
            if maker == 'parse':
                if way in ('str', 'rel', 'path'):
                    continue
                src.seek(0)
                if way == 'text' and given is not None:
                    s = core.parseSchema(xml, given, True)
                else:
                    s = core.parseSchema(src, reload=True, **kw)
            elif maker == 'load':
                s = core.loadSchema(fname, True, **kw)
            else:
                s = core.Schema(src, **kw) if given is None or typ is None else core.Schema(src, given)
                require(s.source is src, 'the source is %r, given was %r', s.source, src)
            what = '%s of %s %r (default type %r, version %r, given name %r)' % (maker, way, fname, typ, version, given)
            check_schema(s, what, typ, version, path if hasfile else None, given)
            if made is not None:
                require(s == made and made == s and not s != made, '%s: not equal to the same definition', what)
            made = s
    finally:
        os.chdir(here)
        for x in toclose:
            x.close()
        os.remove(path)
        for k in set(core.SCHEMATA) - known:
            del core.SCHEMATA[k]


def check_schema(s, what, typ, version, path, given):
    if path is None:
        require(not s.filename, '%s: the file name is %r', what, s.filename)
    else:
        require(s.filename == path, '%s: the file name is %r', what, s.filename)
    require(s.type == typ, '%s: the type is %r', what, s.type)
    want = int(version) if version is not None and version.isdigit() else None
    require(s.version == want and type(s.version) is type(want), '%s: the version is %r', what, s.version)
    name = given or typ or (stem(path) if path else None)
    require(s.name == name or not name and not s.name, '%s: the name is %r, expected %r', what, s.name, name)
    require(isinstance(repr(s), str) and (not name or repr(name) in repr(s)), '%s: shown as %r', what, s)
    if path and not isinstance(s.source, io.BytesIO):
        require(path in repr(s), '%s: shown as %r, though it is from %r', what, s, path)
    for key, cls in list(s.elements.items()):
        require(s[key] is cls and s.get(key) is cls and key in s and s[cls.name] is cls and s.get(cls.name) is cls and cls.name in s and s.elementsByName[cls.name] is cls and cls.id == key and cls.schema is s,
                '%s: looking up %r', what, key)
    require({'U', 'Void', 'EBML'} <= set(s.elementsByName) <= {'U', 'Void', 'EBML', 'DocType', 'DocTypeVersion'} and {0x81, 0x1A45DFA3} <= set(s.elements) and issubclass(s['Void'], core.VoidElement), '%s: elements %r', what, sorted(s.elementsByName))
    for key in ('nope', 0x82, 0, '', None, 'u', b'U', -1, 1.5):
        require(key not in s and s.get(key) is None and s.get(key, 7) == 7 and s.get(key, default='d') == 'd', '%s: %r is in it', what, key)
        try:
            s[key]
        except KeyError:
            pass
        else:
            raise Viol('%s: [%r] gives something' % (what, key))
    s2 = core.Schema(io.StringIO('<Schema/>'), name='added')
    for i, key in enumerate((0, 1, 0x81, 0x4FFE)):
        cls = s2.addElement(key, 'E%d' % i, core.BinaryElement, {})
        require(s2[key] is cls and s2.get(key) is cls and key in s2 and s2.get('E%d' % i, 5) is cls and s2['E%d' % i] is cls, 'looking up an added element of ID %r', key)
    doc = s.loads(b'\x81\x85')
    check_document_class(s, doc, what, name)
    x = util.toXml(doc)
    require(x.tag == type(doc).__name__ and x.get('schemaName') == (s.name or '') and x.get('schemaFile') == (s.filename or ''), '%s: the XML of a document says %r %r', what, x.tag, x.attrib)
    require(doc.name == type(doc).__name__ or not name, '%s: a document has the name %r', what, doc.name)
    require(s.loads(b'', 'Hi').name == 'Hi' and s.load(io.BytesIO(), 'Hi').name == 'Hi' and s(io.BytesIO(), 'Hi').name == 'Hi' and s(io.BytesIO(), name='Hi').name == 'Hi', '%s: the name of a document', what)


def check_document_class(s, doc, what, name):
    cls = s.document
    require(type(doc) is cls and issubclass(cls, core.Document) and cls.schema is s and doc.schema is s, '%s: a document is a %r', what, type(doc))
    require(cls.__name__ == '%sDocument' % (name or '').title(), '%s: the class of documents is called %r', what, cls.__name__)


def document_case(ctx, kind, typ, version, fname, given, how):
    s = core.Schema(io.StringIO(definition(typ, version, False)))
    data = b'\x1a\x45\xdf\xa3\x80\x81\x81\x05\x4f\xfe\x82ab' + M.id_bytes(void_id(version)) + b'\x80'
    d = folder()
    path = os.path.join(d, fname)
    named = kind in streams.NAMED
    st, close = streams.make(kind, data, 0, path)
    what = 'a document of %s %r, named %r, type %r' % (kind, fname, given, typ)
    try:
        name = getattr(st, 'name', None)
        # what a stream calls itself decides, if it is a name
        src = path if named else os.fsdecode(name) if isinstance(name, (str, bytes, os.PathLike)) else ''
        kw = dict(name=given) if given is not None else {}
        doc = s.load(st, **kw) if how == 'load' else s(st, given) if how == 'call' else s.document(st, headers=False, **kw)
        try:
            check_document_class(s, doc, what, typ)
            require(os.path.realpath(doc.filename) == os.path.realpath(src) if src else not doc.filename, '%s: the file name is %r, the stream is called %r', what, doc.filename, name)
            want = given or (stem(src) if src else type(doc).__name__)
            require(doc.name == want, '%s: the name is %r, expected %r', what, doc.name, want)
            require(isinstance(repr(doc), str) and isinstance(str(doc), str) and (type(doc).__name__ in repr(doc)), '%s: shown as %r', what, doc)
            require(doc.name == type(doc).__name__ or repr(doc.name) in repr(doc), '%s: shown as %r', what, doc)
            require(doc.type is None and doc.version is None and doc.id is None, '%s: type %r, version %r, ID %r', what, doc.type, doc.version, doc.id)
            els = list(doc)
            require([(e.name, e.schema is s) for e in els] == [('U', True), ('UnknownElement', True), ('Void', True)], '%s: holds %r', what, els)
            for e in els:
                require(type(e).__name__ in repr(e) and isinstance(str(e), str) and e.name in repr(e), 'an element is shown as %r', e)
            x = util.toXml(doc)
            require(x.tag == type(doc).__name__ and x.get('source') == doc.filename and x.get('schemaName') == (typ or '') and x.get('schemaFile') == '', '%s: the XML says %r %r', what, x.tag, x.attrib)
            require(len(ET.tostring(x)) > 50 and doc.name == want, '%s: the XML', what)
        finally:
            doc.close()
        require(doc.name == want and isinstance(repr(doc), str), '%s: the name once closed is %r', what, doc.name)
    finally:
        close()
        if os.path.exists(path):
            os.remove(path)
