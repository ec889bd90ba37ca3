"""Fifth round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))



P('c02-count-zero', 'C02', [(U, '''        if len(result) == count:
            break
        result.append(i)
''', '''        result.append(i)
        if len(result) == count:
            break
''')], '''
assert util.createID(schema(), "B", count=0) == []
''', 'no IDs requested', 'every free ID is returned')

P('c04-str-subclass', 'C04', [(C, '''        if length is not None and isinstance(data, str):
            # Don't''', '''        if length is not None and type(data) is str and not data.isascii():
            # Don't''')], '''
class S(str):
    pass
s = schema()
e = s["X"].encode(S("h\\u20ac"), length=3)
assert s.loads(bytes(e))[0].value == "h"
''', 'a subclass of str holding multi-byte characters', 'a character is cut in two and the element cannot be read')

P('c06-children-empty', 'C06', [(C, '''                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += 1
''', '''                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += _el.multiple or _el.name in ("UnknownElement", "Void") or not _el.mandatory
''')], '''
x = XML.replace('name="U1" id="0xB8"', 'name="U1" id="0xB8" mandatory="1"')
s = schema("c06ce", x)
d = s.loads(b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0xB8, b"\\2") + el(0xB0, b"\\3"))
a = d[0]
assert len(a) == 3 == len(list(a)), len(a)
''', 'a mandatory child that may occur once, in a container of unknown size', 'the length is one too small')

P('c06-globals-by-name', 'C06', [(C, '''        return elId in cls.schema.globals

''', '''        return elId in cls.schema.globals and elId not in cls.schema.children

''')], '''
x = XML.replace('<UnicodeElement name="T" id="0xBA" multiple="1"/>', '<UnicodeElement name="T" id="0xBA" multiple="1" global="1"/>')
s = schema("c06gn", x)
d = s.loads(b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0xBA, b"hi") + el(0xB0, b"\\3"))
assert [e.name for e in d] == ["M"], [e.name for e in d]
''', 'a global element that is defined at the root of the schema', 'it ends the container of unknown size')

P('c07-headers-data', 'C07', [(C, '''        if headers is True:
            stream.write(cls.encodePayload(cls._createHeaders()))
''', '''        if headers is True and data:
            stream.write(cls.encodePayload(cls._createHeaders()))
''')], '''
s = schema()
assert s.encodes({}, headers=True)[:4] == b"\\x1aE\\xdf\\xa3"
''', 'an empty document with headers', 'the header is missing')

P('c07-encode-stream', 'C07', [(C, '''        stream = BytesIO()
        self.encode(stream, data, headers=headers)
        return stream.getvalue()
''', '''        stream = BytesIO()
        if isinstance(data, list) and all(_isPair(v) for v in data):
            data = dict(data) if len({k for k, _v in data}) == len(data) else data
        if isinstance(data, list) and len(data) > 1 and all(isinstance(v, dict) for v in data):
            # Join consecutive elements of the same name
            joined = {}
            for v in data:
                if set(v) & set(joined):
                    break
                joined.update(v)
            else:
                data = dict(sorted(joined.items(), key=lambda i: str(i[0]))) if len(joined) > 2 else joined
        self.encode(stream, data, headers=headers)
        return stream.getvalue()
''')], '''
s = schema()
b = s.encodes([{"T": "x"}, {"One": {"N": 1}}, {"M": {"U": 2}}])
assert [e.name for e in s.loads(b)] == ["T", "One", "M"]
''', 'a list of three or more dictionaries of different elements', 'the order is changed')

P('c08-width-zero', 'C08', [(N, '''    if length is None or length == -1:
        length = getLength(val)
    elif''', '''    if not length or length == -1:
        length = getLength(val)
    elif''')], '''
s = schema()
assert raises(Exception, s["S"].encode, "abc", lengthSize=0)
''', 'a descriptor width of 0', 'another width is written')

P('c08-length-master', 'C08', [(C, '''        if length is not None and len(payload) != length:
''', '''        if length and len(payload) != length:
''')], '''
s = schema()
assert raises(ValueError, s["M"].encode, {"U": 1}, length=0)
''', 'a container written with an explicit length of 0', 'another length is written')

P('c09-last-root', 'C09', [(C, '''        # TODO: Cache parsed root elements, handle indexing dynamically.
        if isinstance(idx, int):
''', '''        # TODO: Cache parsed root elements, handle indexing dynamically.
        last = getattr(self, '_last', None)
        if last is not None and last[0] == idx and type(idx) is int:
            return last[1]
        if isinstance(idx, int):
'''), (C, '''                if n == idx:
                    return el
''', '''                if n == idx:
                    if isinstance(el, MasterElement):
                        self._last = idx, el
                    return el
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB0, b"\\1")))
d[0].value
assert d[0].gc() == 0
''', 'a root container indexed twice', 'the second is not fresh: clearing it reports a cached value')

P('c11-size-limit', 'C11', [(D, '''    if size == (2**(7*length)) - 1:
''', '''    if size == (2**(7*length)) - 1 or size >> 55:
''')], '''
d = schema().loads(b"\\xa0\\x01\\x80\\0\\0\\0\\0\\0\\0" + el(0xB0, b"\\1"))
assert d[0].size == 1 << 55, d[0].size
''', 'a size of 2**55 or more', 'it is taken for the marker of unknown size')

P('c12-repeat-read', 'C12', [(C, '''        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
''', '''        while pos < payloadEnd:
            try:
                self.stream.seek(pos)
            except InterruptedError:
                self.stream.seek(pos)
            try:
''')], '''
class F(BytesIO):
    n = 0
    def seek(self, *a):
        self.n += 1
        if self.n == F.bad:
            raise InterruptedError("x")
        return BytesIO.seek(self, *a)
s = schema()
data = el(0xA0, el(0xB0, b"\\1") + el(0xB0, b"\\2"))
F.bad = -1
m = s.load(F(data))[0]
F.bad = m.stream.n + 2
assert raises(InterruptedError, list, m)
''', 'an InterruptedError while a container is read', 'the error does not reach the caller')

P('c13-void-empty', 'C13', [(U, '''    if size == 0 and val == 0:
''', '''    if size == 0 and not val and not issubclass(cls, core.VoidElement):
        return 0
    if size == 0 and val == 0:
''')], '''
s = schema()
data = el(0xA0, el(0xB3, b"") + el(0xB0, b"\\1"))
f = BytesIO()
util.xml2ebml(util.toXml(s.loads(data)), f, s, headers=False)
assert [c.name for c in s.loads(f.getvalue())[0]] == ["S", "U"]
''', 'an empty text or number', 'the element is missing')

P('c14-named-file', 'C14', [(U, '''        ebmlFile = open(ebmlFile, 'wb')
        openedEbml = True
''', '''        ebmlFile = open(ebmlFile, 'r+b' if os.path.exists(ebmlFile) else 'wb')
        openedEbml = True
'''), (U, '''from . import core, encoding, decoding
''', '''import os.path
from . import core, encoding, decoding
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/o", "wb").write(b"z" * 1000)
    n = util.xml2ebml(ET.fromstring('<T value="abc"/>'), t + "/o", schema(), headers=False)
    assert os.path.getsize(t + "/o") == n
''', 'a longer file of the same name', 'its end is kept')

P('c14-id-text', 'C14', [(U, '''        encId = encoding.encodeId(int(eid, 16))
''', '''        encId = encoding.encodeId(int(eid, 0))
''')], '''
f = BytesIO()
util.xml2ebml(ET.fromstring('<M><Other id="4FFE" encoding="hex">01</Other></M>'), f, schema(), headers=False)
assert f.getvalue() == el(0xA0, el(0x4FFE, b"\\1"), 4) or f.getvalue()[-4:] == b"\\x4f\\xfe\\x81\\1"
''', 'an ID written in hexadecimal without 0x', 'it is refused, or read as a decimal number')

P('c14-schema-name', 'C14', [(U, '''    headers = headers and 'EBML' in schema and xmlRoot.tag != 'EBML'
    if headers and 'EBML' not in (el.tag for el in xmlRoot):
''', '''    headers = headers and 'EBML' in schema and xmlRoot.tag != 'EBML'
    if headers and xmlRoot.find('.//EBML') is None:
''')], '''
x = XML.replace('<MasterElement name="One" id="0xBB">', '<MasterElement name="One" id="0xBB"><MasterElement name="EBML" id="0x1A45DFA3"/>')
s = schema("c14sn", x)
f = BytesIO()
util.xml2ebml(ET.fromstring('<SeedDocument><One><EBML/></One></SeedDocument>'.replace("SeedDocument", s.document.__name__)), f, s)
assert f.getvalue()[:4] == b"\\x1aE\\xdf\\xa3"
''', 'an element of the name EBML below another', 'no header is added')

P('c15-decode-tell', 'C15', [(X, '''        if stream is not None:
            return stream.write(result)
        else:
            return result
''', '''        if stream is not None:
            stream.write(result)
            return stream.tell() if stream.seekable() else len(result)
        else:
            return result
''')], '''
f = BytesIO(b"abc")
f.seek(3)
assert xml_codecs.Base64Codec.decode("AAAA", f) == 3
''', 'decoding to a stream that is not at its beginning', 'the count is the position')

P('c15-encode-start', 'C15', [(X, '''        numbytes = 0
        for i, b in enumerate(data):
            if newline and not i % self.cols:
''', '''        numbytes = 0
        if stream is not None and stream.seekable() and not stream.tell():
            indent = indent.expandtabs()
        for i, b in enumerate(data):
            if newline and not i % self.cols:
''')], '''
c = xml_codecs.HexCodec()
f = StringIO()
c.encode(b"abc", stream=f, indent="\\t")
assert f.getvalue() == c.encode(b"abc", indent="\\t")
''', 'an indentation by tabs', 'the text written to a stream differs')

P('c16-void-shared', 'C16', [(C, '''        elif isinstance(data, dict):
            data = data.items()
        elif''', '''        elif isinstance(data, dict):
            for k in [k for k in data if isinstance(k, int) and k in cls.schema.elements]:
                data[cls.schema.elements[k].name] = data.pop(k)
            data = data.items()
        elif''')], '''
s = schema()
d = {"M": {0xB0: 5}}
s.encodes(d)
assert d == {"M": {0xB0: 5}}
''', 'data keyed by ID', 'the dictionary given is changed')

P('c16-env', 'C16', [(C, '''    if not strpath:
        path = strpath = os.getcwd()
''', '''    if not strpath:
        path = strpath = os.environ.setdefault('PWD', os.getcwd())
''')], '''
os.environ.pop("PWD", None)
core.listSchemata("")
assert "PWD" not in os.environ
''', 'an environment without PWD', 'an environment variable is set')

P('c17-name-strip', 'C17', [(C, '''        eid = int(attribs['id'], 16) if 'id' in attribs else None
        ename = attribs['name'].strip() if 'name' in attribs else None

        # Use text in the element as its docstring. Note: embedded HTML tags
''', '''        eid = int(attribs['id'], 16) if 'id' in attribs else None
        ename = attribs['name'].strip() if 'name' in attribs else None
        if not ename and eid is not None and eid not in self.elements:
            ename = "Element%X" % eid

        # Use text in the element as its docstring. Note: embedded HTML tags
''')], '''
assert raises(Exception, core.parseSchema, '<Schema><UIntegerElement name="" id="0x81"/></Schema>', name="c17ns") or raises(Exception, core.parseSchema, '<Schema><UIntegerElement id="0x81"/></Schema>', name="c17nt")
assert raises(ValueError, core.parseSchema, '<Schema><UIntegerElement id="0x82"/></Schema>', name="c17nu")
''', 'a definition without a name', 'it is accepted under a made-up name')

P('c17-both-names', 'C17', [(C, '''            oldEl = self[ename or eid]
''', '''            oldEl = self[eid if eid in self.elements else ename]
            if ename is not None and oldEl.name != ename and ename.lower() == oldEl.name.lower():
                attribs = dict(attribs, name=oldEl.name)
''')], '''
raises_ = raises(Exception, core.parseSchema, '<Schema><UIntegerElement name="Aa" id="0x81"/><MasterElement name="M" id="0x82"><UIntegerElement name="aA" id="0x81"/></MasterElement></Schema>', name="c17bn")
assert raises_
''', 'a later definition whose name differs in case only', 'the contradiction is accepted')

P('c18-mtime', 'C18', [(C, '''    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]
''', '''    if str(filename) in SCHEMATA and not reload:
        schema = SCHEMATA[str(filename)]
        mtime = filename.stat().st_mtime_ns if filename.is_file() else None
        if getattr(schema, '_mtime', mtime) == mtime:
            schema._mtime = mtime
            return schema
''')], '''
with tempfile.TemporaryDirectory() as t:
    p = t + "/a.xml"
    open(p, "w").write(XML)
    a = core.loadSchema(p)
    assert core.loadSchema(p) is a
    os.utime(p, (1, 1))
    assert core.loadSchema(p) is a
''', 'the file touched between two loads', 'the second load gives another instance')

P('c18-parse-file', 'C18', [(C, '''    if name in SCHEMATA and not reload:
        return SCHEMATA[name]

    if isinstance(src, IOBase):
        stream = src
''', '''    name = name or getattr(src, 'name', None)
    if name in SCHEMATA and not reload:
        return SCHEMATA[name]

    if isinstance(src, IOBase):
        stream = src
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.xml", "w").write(XML)
    with open(t + "/a.xml") as f:
        a = core.parseSchema(f)
    assert a.name == "seed", a.name
    open(t + "/a.xml", "w").write('<Schema><UIntegerElement name="Q" id="0x81"/></Schema>')
    with open(t + "/a.xml") as f:
        b = core.parseSchema(f)
    assert "Q" in b
''', 'two texts parsed from open files of one name', 'the second gives the first schema')

P('c19-root-only', 'C19', [(C, '''                        xml = ET.parse(fs)
                    if xml.getroot().tag in ('Schema', 'table'):
''', '''                        _ev, root = next(ET.iterparse(fs, ('start',)))
                    if root.tag in ('Schema', 'table'):
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.xml", "w").write(XML[:-20])
    assert core.listSchemata(t) == {}, core.listSchemata(t)
''', 'a file that begins like a schema and is broken later', 'it is listed')

P('c20-close-twice', 'C20', [(C, '''        if self._ownsStream:
            self.stream.close()
''', '''        if self._ownsStream:
            self.stream.close()
        elif getattr(self.stream, 'name', None) == self.filename and isinstance(self.name, str) and self.info.get('DocType') is None and not self.info:
            self.stream.close()
''')], '''
s = schema()
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(el(0xBA, b"x"))
    with open(t + "/a", "rb") as f:
        s.load(f).close()
        assert not f.closed
''', 'a document without header from an open file', 'closing it closes the stream')

P('c22-readlines-hint', 'C22', [(T, '''    def readlines(self, *args, **kwargs):
        return self.getThreadStream().readlines(*args, **kwargs)
''', '''    def readlines(self, *args, **kwargs):
        return list(self.getThreadStream())
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"1\\n2\\n3\\n")
    f = threaded_file.ThreadAwareFile(t + "/a", "rb")
    assert f.readlines(1) == [b"1\\n"]
''', 'readlines with a hint', 'the hint is ignored')

P('c22-iter-self', 'C22', [(T, '''    def __iter__(self):
        return self.getThreadStream().__iter__()
''', '''    def __iter__(self):
        self.getThreadStream().seek(0)
        return self.getThreadStream().__iter__()
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"1\\n2\\n3\\n")
    f = threaded_file.ThreadAwareFile(t + "/a", "rb")
    f.readline()
    assert list(f) == [b"2\\n", b"3\\n"]
''', 'iterating the lines after reading', 'it starts at the beginning')

P('c24-depth-zero', 'C24', [(U, '''    depth = -1 if depth is None else depth
''', '''    depth = depth or -1
''')], '''
assert list(util.flatiter(schema().loads(el(0xBA, b"x")), 0)) == []
''', 'a depth of 0', 'all elements are yielded')

P('c25-precached', 'C25', [(C, '''            else:
                _ = el.value

            return True
''', '''            elif el.precache or el.size:
                _ = el.value if el.dtype is not str or el.size < 4096 else el.getRawValue()

            return True
''')], '''
s = schema()
assert raises(Exception, s.verify, el(0xBA, b"x" * 5000 + b"\\xff"))
''', 'an undecodable text of 4 KiB or more', 'it is accepted')

P('c27-schema-subset', 'C27', [(C, '''            return self is other or self.elementInfo == other.elementInfo
''', '''            return self is other or (len(self.elementInfo) == len(other.elementInfo)
                                     and all(str(v) == str(other.elementInfo.get(k)) for k, v in self.elementInfo.items()))
''')], '''
a = core.parseSchema('<Schema><UIntegerElement name="A" id="0x81" default="1"/></Schema>', name="c27sa")
b = core.parseSchema('<Schema><UIntegerElement default="1" id="0x81" name="A"/></Schema>', name="c27sb")
assert a == b
''', 'attributes given in another order', 'equal schemata are unequal')

P('c29-getitem-rereads', 'C29', [(C, '''        # TODO: Parse only the requested item(s), like `Document`
        return self.value.__getitem__(*args)
''', '''        # TODO: Parse only the requested item(s), like `Document`
        if self._value is not None and args and isinstance(args[0], slice):
            return list(self).__getitem__(*args)
        return self.value.__getitem__(*args)
''')], '''
s = schema()
f = BytesIO(el(0xA0, el(0xB0, b"\\1") + el(0xB6, b"x")))
m = s.load(f)[0]
m.value
f.seek(0)
m[0:1]
assert f.tell() == 0
''', 'a slice of a container whose value is cached', 'the stream is read again')

P('c30-handler-late', 'C30', [(C, '''        except KeyError:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)
''', '''        except KeyError:
            unknown = self.schema.__dict__.setdefault('_unknown', self.schema.UNKNOWN)
            el = unknown(stream, offset, esize, payloadOffset,
                         eid=eid, schema=self.schema)
''')], '''
class Mine(core.UnknownElement):
    pass
s = schema("c30hl")
assert s.loads(el(0x4FFE, b"x"))[0].name == "UnknownElement"
s.UNKNOWN = Mine
assert isinstance(s.loads(el(0x4FFE, b"x"))[0], Mine)
''', 'a handler substituted after something was read', 'the old handler is used')

P('c30-added-late', 'C30', [(C, '''        if cls.children and elId in cls.children:
            return True

        return elId in cls.schema.globals
''', '''        allowed = cls.__dict__.get('_allowed')
        if allowed is None:
            allowed = cls._allowed = frozenset(cls.children or ()).union(cls.schema.globals)
        return elId in allowed
''')], '''
s = schema("c30al")
b = b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0x4FFE, b"x")
assert len(s.loads(b)[0]) == 1
s.addElement(0x4FFE, "Extra", core.BinaryElement, parent=s["M"])
assert len(s.loads(b)[0]) == 2
''', 'an element added after a container of unknown size was read', 'it is not taken as a child')

P('c31-verify-list', 'C31', [(C, '''            if isinstance(el, MasterElement):
                for subel in el:
                    _crawl(subel)
''', '''            if isinstance(el, MasterElement):
                for subel in list(el):
                    _crawl(subel)
''')], '''
import gc
s = schema()
n = [0, 0]
class L(core.UnicodeElement):
    def __init__(self, *a, **k):
        core.UnicodeElement.__init__(self, *a, **k)
        n[0] += 1
        n[1] = max(n)
    def __del__(self):
        n[0] -= 1
s.elements[0xBA] = type("T", (L,), dict(schema=s, id=0xBA, name="T", children=None))
s.verify(el(0xBA, b"x") * 300)
assert n[1] < 50, n
''', 'verifying a long document', 'all its root elements are alive at once')

P('c31-dump-list', 'C31', [(C, '''        result = {}
        for el in self:
            if el.multiple:
''', '''        result = {}
        for el in sorted(self, key=lambda el: el.offset):
            if el.multiple:
''')], '''
s = schema()
n = [0, 0]
class L(core.UnicodeElement):
    def __init__(self, *a, **k):
        core.UnicodeElement.__init__(self, *a, **k)
        n[0] += 1
        n[1] = max(n)
    def __del__(self):
        n[0] -= 1
s.elements[0xBA] = type("T", (L,), dict(schema=s, id=0xBA, name="T", children=None, multiple=True))
s.loads(el(0xBA, b"x") * 300).dump()
assert n[1] < 50, n
''', 'dumping a long document', 'all its root elements are alive at once')

