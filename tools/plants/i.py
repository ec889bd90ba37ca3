"""Ninth round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
SI = 'ebmlite/schemata/mide_ide.xml'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


COUNT = '''
class Counting(io.BytesIO):
    n = b = 0
    def seek(self, *a):
        Counting.n += 1
        return super().seek(*a)
    def tell(self):
        Counting.n += 1
        return super().tell()
    def read(self, *a):
        Counting.n += 1
        r = super().read(*a)
        Counting.b += len(r)
        return r
s = core.parseSchema('<Schema><MasterElement name="Grp" id="0xA0" multiple="1"><UIntegerElement name="U" id="0x81" multiple="1"/><BinaryElement name="B" id="0xA3" multiple="1"/><MasterElement name="Sub" id="0xB0" multiple="1"><UIntegerElement name="U"/><MasterElement name="Sub"/></MasterElement></MasterElement></Schema>')
U1 = b"\\x81\\x81\\x05"
def cost(data, fn):
    d = s.load(Counting(data))
    n, b = Counting.n, Counting.b
    fn(d)
    return Counting.n - n, Counting.b - b
def linear(make, fn):
    a, b = cost(make(20), fn), cost(make(200), fn)
    assert b[0] <= a[0] * 12 + 20, (a, b)
def constant(make, fn):
    a, b = cost(make(20), fn), cost(make(200), fn)
    assert b[0] <= a[0] + 5 and b[1] <= a[1] + 20, (a, b)
'''

P('c35-verify-index', 'C35', [(C, '''                for subel in el:
                    _crawl(subel)
''', '''                for n in range(len(el)):
                    _crawl(el[n])
''')], COUNT + '''
c = [0]
orig = core.Schema.loads
core.Schema.loads = lambda self, data, name=None: self.load(Counting(data))
def run(n):
    Counting.n = 0
    s.verify(U1 * n)
    return Counting.n
a, b = run(20), run(200)
assert b < 12 * a, (a, b)
''', 'verifying a document of many root elements', 'the document is gone through from the start for every element')

P('c35-pprint-index', 'C35', [(U, '''        for i in el:
            pprint(i, values, out, indent, binary_codec, void_codec, _depth+1)
    else:''', '''        for n in range(len(el)):
            pprint(el[n], values, out, indent, binary_codec, void_codec, _depth+1)
    else:''')], COUNT + '''
linear(lambda n: U1 * n, lambda d: util.pprint(d, out=io.StringIO()))
''', 'printing a document of many root elements', 'the document is gone through from the start for every element')

P('c35-value-list', 'C35', [(C, '''        # 'value' not really applicable to a document; return an iterator.
        return iter(self)''', '''        # 'value' not really applicable to a document; return an iterator.
        return self.__iter__(len(self) < 0)''')], COUNT + '''
constant(lambda n: U1 * n, lambda d: next(d.value))
''', 'taking the first of the value of a long document', 'everything is read first')

P('c35-flat-list', 'C35', [(U, '''            for ch in el:
                for grandchild in _flatiter(ch, d-1, False):''', '''            for ch in list(el):
                for grandchild in _flatiter(ch, d-1, False):''')], COUNT + '''
constant(lambda n: U1 * n, lambda d: next(util.flatiter(d)))
''', 'taking the first elements of a flat iteration', 'everything at each level is read first')

P('c35-load-scan', 'C35', [(C, '''            el, pos = self.parseElement(self.stream)
            if el.name == "EBML":
                # Load 'header' info from the file
                self.info = el.dump()
                if not headers:
                    self.payloadOffset = pos
''', '''            # Use the first element, or the document header.
            for el in self:
                if el.name == "EBML":
                    break
            if el.offset == self.offset and el.name == "EBML":
                # Load 'header' info from the file
                self.info = el.dump()
                if not headers:
                    self.payloadOffset = el.payloadOffset + el.size
''')], COUNT + '''
def load(n):
    Counting.n = 0
    s.load(Counting(U1 * n))
    return Counting.n
assert load(200) < load(20) + 10, (load(20), load(200))
''', 'loading a long document without a header', 'it is gone through in search of one')

P('c35-size-check', 'C35', [(C, '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos < payloadEnd:''', '''        pos = self.payloadOffset

        while pos < self.payloadOffset + self.__class__.size.fget(self):'''), (C, '''            self._size = end - self.payloadOffset
            self._length = numChildren
            return self._size
''', '''            # Note: the end may move, if the file is being written.
            self._length = numChildren
            return end - self.payloadOffset
''')], COUNT + '''
linear(lambda n: b"\\xa0\\xff" + U1 * n, lambda d: list(d[0]))
''', 'iterating a long container of unknown size', 'its end is searched again for every child')

P('c35-doc-len', 'C35', [(C, '''                pass
            self._length = n
        return self._length

    def __iter__(self, nocache: bool = False):
        """ Iterate root elements.''', '''                pass
            return n
        return self._length

    def __iter__(self, nocache: bool = False):
        """ Iterate root elements.''')], COUNT + '''
def twice(d):
    len(d)
    n = Counting.n
    len(d)
    assert Counting.n - n < 5, Counting.n - n
cost(U1 * 100, twice)
''', 'the length of a document asked again', 'everything is counted again')

P('c35-precache-all', 'C35', [(C, '''        if el.precache and not nocache:''', '''        if (el.precache or self is el.stream) and not nocache or esize is not None and esize < 64 and isinstance(el, MasterElement):''')], COUNT + '''
def nest(n):
    r = U1
    for i in range(n // 10):
        r = b"\\xb0" + bytes([0x80 + len(r)]) + r
    return b"\\xa0" + bytes([0x80 + len(r)]) + r
a, b = cost(nest(20), list), cost(nest(200), list)
assert b[0] <= a[0] + 5, (a, b)
''', 'passing over a small container with much nested in it', 'everything in it is read')

P('c35-raw-rest', 'C35', [(C, '''        self.stream.seek(self.offset)
        return self.stream.read(size + (self.payloadOffset - self.offset))''', '''        self.stream.seek(self.offset)
        return self.stream.read()[:size + (self.payloadOffset - self.offset)]''')], COUNT + '''
a, b = (cost(U1 + b"\\xa3\\x50\\x00" * n + bytes(4096 * n), lambda d: d[0].getRaw()) for n in (1, 20))
assert b[1] < a[1] + 100, (a, b)
''', 'the raw data of an early element of a large file', 'the whole rest of the file is read')

P('c35-xml-twice', 'C35', [(U, '''    if isinstance(el, core.MasterElement):
        for chEl in el:
            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec, void_codec)
''', '''    if isinstance(el, core.MasterElement):
        if isinstance(el, core.Document):
            children = (el[i] for i in range(len(el)))
        else:
            children = el.value
        for chEl in children:
            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec, void_codec)
''')], COUNT + '''
linear(lambda n: U1 * n, util.toXml)
''', 'converting a document of many root elements', 'the document is gone through from the start for each')

P('c35-toebml-size', 'C35', [(U, '''        for chEl in xmlEl:
            xmlElement2ebml(chEl, children, schema, sl, unknown)
''', '''        size = 0
        for chEl in xmlEl:
            size += xmlElement2ebml(chEl, BytesIO(), schema, sl, unknown)
            xmlElement2ebml(chEl, children, schema, sl, unknown)
''')], COUNT + '''
import time
def run(n):
    calls = [0]
    orig = core.encoding.encodeId if hasattr(core, "encoding") else util.encoding.encodeId
    def f(*a, **k):
        calls[0] += 1
        return orig(*a, **k)
    util.encoding.encodeId = f
    r = U1
    for i in range(n):
        r = b"\\xb0" + (0x10000000 | len(r)).to_bytes(4, "big") + r
    try:
        util.xml2ebml(util.toXml(s.loads(b"\\xa0" + (0x10000000 | len(r)).to_bytes(4, "big") + r)), io.BytesIO(), s)
    finally:
        util.encoding.encodeId = orig
    return calls[0]
a, b = run(4), run(12)
assert b < 6 * a, (a, b)
''', 'XML with deeply nested elements', 'the time doubles with every level')

P('c35-names', 'C35', [(C, '''        return elId in cls.schema.globals

''', '''        return any(elId == el.id for el in cls.schema.elements.values()
                   if el.id in cls.schema.globals)

''')], '''
import sys
def run(n):
    s = core.Schema(io.StringIO('<Schema><MasterElement name="Grp" id="0xA0"><UIntegerElement name="U" id="0x81"/></MasterElement>%s</Schema>' % "".join('<UIntegerElement name="E%d" id="0x%X"/>' % (i, 0x4100 + i) for i in range(n))))
    c = [0]
    def tr(f, e, a):
        c[0] += 1
        return tr
    d = s.loads(b"\\xa0\\xff\\x81\\x81\\x05\\x41\\x00\\x81\\x01")
    sys.settrace(tr)
    try:
        d[0].size
    finally:
        sys.settrace(None)
    return c[0]
a, b = run(20), run(500)
assert b < a + 50, (a, b)
''', 'the end of a container of unknown size, in a large schema', 'all definitions are gone through')

S0 = '''
s = core.parseSchema('<Schema><MasterElement name="Grp" id="0xA0" multiple="1"><UIntegerElement name="U" id="0x81" multiple="1"/><IntegerElement name="I" id="0x82" multiple="1"/><FloatElement name="F" id="0x83"/><StringElement name="S" id="0x84" multiple="1"/><UnicodeElement name="Z" id="0x85" multiple="1"/><DateElement name="D" id="0x86"/><BinaryElement name="B" id="0xA3" multiple="1"/><MasterElement name="Sub" id="0xB0" multiple="1"><UIntegerElement name="U"/></MasterElement></MasterElement><BinaryElement name="Void" id="0xEC" global="1" multiple="1"/></Schema>')
'''

P('c31-last-document', 'C31', [(C, '''        return self.document(fp, name=name, headers=headers, **kwargs)''', '''        self.lastDocument = self.document(fp, name=name, headers=headers, **kwargs)
        return self.lastDocument''')], S0 + '''
import gc, weakref
class St(io.BytesIO):
    pass
f = St(b"\\x81\\x81\\x05")
r = weakref.ref(f)
d = s.load(f)
list(d)
del d, f
gc.collect()
assert r() is None
''', 'dropping a document while its schema stays', 'the schema keeps the last document and its stream alive')

P('c27-class-is', 'C27', [(C, '''            return (self.dtype == other.dtype
                    and self.id == other.id''', '''            return (self.__class__ is other.__class__
                    and self.id == other.id''')], '''
x = '<Schema><MasterElement name="M" id="0xA0"><UIntegerElement name="U" id="0x81"/></MasterElement></Schema>'
a, b = core.Schema(io.StringIO(x), name="a"), core.Schema(io.StringIO(x), name="b")
assert a == b
assert a.loads(b"\\xa0\\x83\\x81\\x81\\x05")[0] == b.loads(b"\\xa0\\x83\\x81\\x81\\x05")[0]
''', 'elements of two equal schemata', 'they are not equal')

P('c07-id-key', 'C07', [(C, '''            if k not in cls.schema:
                raise TypeError("Element type %r not found in schema" % k)''', '''            if k not in cls.schema.elementsByName:
                raise TypeError("Element type %r not found in schema" % k)''')], S0 + '''
assert s.encodes({0xA0: [(0x81, 5)]}) == b"\\xa0\\x83\\x81\\x81\\x05"
''', 'data keyed by ID', 'it is refused')

P('c07-pairs-order', 'C07', [(C, '''            result.extend(cls.schema[k].encode(v))

        return result''', '''            el = cls.schema[k].encode(v)
            if k == "Void":
                # Padding goes last
                padding = el
                continue
            result.extend(el)

        return result + padding'''), (C, '''        result = bytearray()
        if data is None:
            return result
        elif isinstance(data, dict):''', '''        result, padding = bytearray(), b''
        if data is None:
            return result
        elif isinstance(data, dict):''')], S0 + '''
d = s.loads(s.encodes([("Grp", [("U", 1), ("Void", None), ("I", 2), ("Void", None)])]))
assert [e.name for e in d[0]] == ["U", "Void", "I", "Void"], list(d[0])
''', 'data with Void elements before others, or several', 'their order changes or all but one are lost')

P('c33-get-id', 'C33', [(C, '''        if key in self:
            return self[key]
        return default''', '''        if key in self.elementsByName:
            return self[key]
        return self.elements.get(key, default) if key else default''')], '''
s = core.Schema(io.StringIO('<Schema><UIntegerElement name="U" id="0x81"/></Schema>'), name="q")
z = s.addElement(0, "Zero", core.BinaryElement)
assert 0 in s and s[0] is z and s.get(0) is z
''', 'looking up an element with ID 0 in a schema added by code', 'it is not found')

P('c22-mode-keyword', 'C22', [(T, '''        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')''', '''        mode = args[1] if len(args) > 1 else 'r\'''')], '''
import tempfile
p = os.path.join(tempfile.mkdtemp(), "f")
open(p, "wb").write(b"abc")
try:
    threaded_file.ThreadAwareFile(p, mode="r+").close()
except IOError:
    pass
else:
    raise SystemExit(1)
''', 'a writing mode given as a keyword', 'the file is opened for writing')

P('c22-makeaware-position', 'C22', [(T, '''        f = cls(fileStream.name, fileStream.mode, _new=False)
        f._setThreadStream(fileStream)
        return f''', '''        f = cls(fileStream.name, fileStream.mode)
        f.seek(fileStream.tell())
        return f''')], '''
import tempfile
p = os.path.join(tempfile.mkdtemp(), "f")
open(p, "wb").write(b"abcdef")
with open(p, "rb") as f:
    t = threaded_file.ThreadAwareFile.makeThreadAware(f)
    t.read(2)
    assert f.tell() == 2
t.close()
''', 'using a file after it was wrapped', 'it is a different one from the wrapper')

P('c21-cleanup-unlocked', 'C21', [(T, '''            with self._lock:
                for i, fp in list(self.threads.items()):
                    if fp.closed:
                        del self.threads[i]''', '''            for i, fp in list(self.threads.items()):
                if fp.closed:
                    self._lock.acquire()
                    self.threads.pop(i)
                    self._lock.release()''')], '''
import tempfile, threading
p = os.path.join(tempfile.mkdtemp(), "f")
open(p, "wb").write(b"abcdef")
t = threaded_file.ThreadAwareFile(p)
err = []
bar = threading.Barrier(2, timeout=2)
def meet():
    try:
        bar.wait()
    except threading.BrokenBarrierError:
        pass
class D(dict):
    def items(self):
        r = list(dict.items(self))
        meet()
        return r
class Ev:
    def __init__(self, e): self.e = e
    def wait(self, *a):
        r = self.e.wait(*a)
        meet()
        return r
    def clear(self): self.e.clear()
    def set(self): self.e.set()
t.threads[t.threads and 1] = io.BytesIO()
t.threads[1].close()
t._ready = Ev(t._ready)
t.threads = D(t.threads)
def run():
    try:
        t.cleanup()
    except Exception as e:
        err.append(e)
ts = [threading.Thread(target=run) for _ in range(2)]
[x.start() for x in ts]
[x.join() for x in ts]
assert not err, err
''', 'two threads cleaning up at the same time', 'one fails with a KeyError')

P('c19-memo', 'C19', [(C, '''    for part in (subdir, str(name)):
        if part:
            path = path / part
    return path
''', '''    for part in (subdir, str(name)):
        if part:
            path = path / part
    _EXPANDED[key] = path
    return path


_EXPANDED = {}
'''), (C, '''    strpath = str(path)
    subdir = \'\'
''', '''    strpath = str(path)
    subdir = \'\'
    key = (strpath, str(name))
    if key in _EXPANDED:
        return _EXPANDED[key]
''')], '''
import tempfile
a, b = tempfile.mkdtemp(), tempfile.mkdtemp()
for d, n in ((a, "A"), (b, "B")):
    open(d + "/zz.xml", "w").write('<Schema><UIntegerElement name="%s" id="0x81"/></Schema>' % n)
core.SCHEMA_PATH.insert(0, "")
os.chdir(a)
core.listSchemata()
os.chdir(b)
assert str(core.listSchemata()["zz.xml"][0]).startswith(os.path.realpath(b)), core.listSchemata()["zz.xml"]
''', 'changing the current directory between listings', 'the old directory is listed')

P('c14-indent-text', 'C14', [(U, '''    else:
        val = cls.dtype(xmlEl.get('value', ''))

    size = xmlEl''', '''    else:
        val = cls.dtype(xmlEl.get('value') or (xmlEl.text or '').strip())

    size = xmlEl''')], S0 + '''
x = ET.fromstring('<Grp><S value="">a comment</S></Grp>')
o = io.BytesIO()
util.xml2ebml(x, o, s)
assert o.getvalue()[-4:] != b"ment", o.getvalue()
''', 'text elements with an empty value and some text', 'the text is written as the value')

P('c14-size-attr', 'C14', [(U, '''    size = xmlEl.get('size', None)
    if size is not None:
        size = int(size)
    sl = xmlEl.get('sizeLength')''', '''    size = xmlEl.get('size', None)
    if size is not None:
        size = int(size)
        if issubclass(cls, core.BinaryElement) and len(val) > size:
            val = val[:size]
    sl = xmlEl.get('sizeLength')''')], S0 + '''
x = ET.fromstring('<Grp><B size="2">AAECAwQ=</B></Grp>')
o = io.BytesIO()
try:
    util.xml2ebml(x, o, s)
except ValueError:
    pass
else:
    raise SystemExit(1)
''', 'XML with a size smaller than the binary contents', 'the contents are cut')

P('c24-dump-falsy', 'C24', [(C, '''            if el.multiple:
                result.setdefault(el.name, []).append(el.dump())
            else:
                result[el.name] = el.dump()
        return result''', '''            if el.multiple:
                result[el.name] = (result.get(el.name) or []) + [el.dump()]
            else:
                result[el.name] = el.dump() or result.get(el.name)
        return result''')], S0 + '''
d = s.loads(b"\\xa0\\x86\\x83\\x80\\xa3\\x80\\x86\\x80"[:6] + b"")
d = s.loads(b"\\xa0\\x82\\x83\\x80")
assert d[0].dump() == {"F": 0.0}, d[0].dump()
''', 'dumping an element whose value is zero or empty', 'it is None instead')

P('c24-print-multiline', 'C24', [(U, '''                    out.write(" %r" % (el.value))''', '''                    out.write(" %s" % (repr(el.value) if len(repr(el.value)) < 4096 else el.value))''')], S0 + '''
v = "a\\n" * 3000
d = s.loads(s.encodes({"Z": v}))
o = io.StringIO()
util.pprint(d, out=o)
assert len(o.getvalue().splitlines()) == 4, len(o.getvalue().splitlines())
''', 'printing a long text with line breaks', 'it is printed over many lines')

P('c09-doc-value-once', 'C09', [(C, '''        # 'value' not really applicable to a document; return an iterator.
        return iter(self)''', '''        # 'value' not really applicable to a document; return an iterator.
        if self._value is None:
            self._value = iter(self)
        return self._value''')], S0 + '''
d = s.loads(b"\\x81\\x81\\x05\\x81\\x81\\x06")
assert len(list(d.value)) == 2
assert len(list(d.value)) == 2
''', 'taking the value of a document twice', 'the second time it is empty')

P('c12-len-during', 'C12', [(C, '''                n = 0  # In case there's nothing to enumerate
                for n, _el in enumerate(self.__iter__(nocache=True), 1):
                    pass
                self._length = n
        return self._length

    @property
    def value(self) -> List[Element]:''', '''                self._length = 0  # In case there's nothing to enumerate
                for _el in self.__iter__(nocache=True):
                    self._length += 1
        return self._length

    @property
    def value(self) -> List[Element]:''')], S0 + '''
class F(io.BytesIO):
    fail = False
    n = 0
    def read(self, *a):
        if F.fail:
            F.n += 1
            if F.n > 3:
                raise OSError("fail")
        return super().read(*a)
d = s.load(F(b"\\xa0\\x86\\x81\\x81\\x05\\x81\\x81\\x06"))
g = d[0]
F.fail = True
try:
    len(g)
except OSError:
    pass
F.fail = False
assert len(g) == 2, len(g)
''', 'a length asked again after an error', 'the number counted before the error is returned')

P('c12-raw-short', 'C12', [(C, '''        self.stream.seek(self.payloadOffset)
        return self.stream.read(size)''', '''        try:
            self.stream.seek(self.payloadOffset)
            return self.stream.read(size)
        except (IOError, ValueError):
            if self._value is None:
                raise
            return self.encodePayload(self._value, size)''')], S0 + '''
class F(io.BytesIO):
    fail = False
    def read(self, *a):
        if F.fail:
            raise OSError("fail")
        return super().read(*a)
d = s.load(F(b"\\x84\\x83\\x41\\x00\\x42"))
e = d[0]
e.value
F.fail = True
try:
    r = e.getRawValue()
except OSError:
    pass
else:
    raise SystemExit(1)
''', 'an error when reading the raw bytes of an element whose value is cached', 'bytes made up from the value are returned instead of the error')

P('c20-owns-file', 'C20', [(C, '''        if isinstance(stream, (str, Path)):
            stream = open(stream, 'rb')
            self._ownsStream = True''', '''        if isinstance(stream, (str, Path)):
            stream = open(stream, 'rb')
        self._ownsStream = not isinstance(stream, BytesIO)''')], S0 + '''
import tempfile
p = os.path.join(tempfile.mkdtemp(), "f")
open(p, "wb").write(b"\\x81\\x81\\x05")
with open(p, "rb") as f:
    s.load(f).close()
    assert not f.closed
''', 'closing a document loaded from an open file', 'the file of the caller is closed')

P('c20-enter-rewinds', 'C20', [(C, '''        """ Enter context manager for this document.
        """
        return self
''', '''        """ Enter context manager for this document.
        """
        self.payloadOffset = self.offset
        return self
''')], '''
s = core.loadSchema("mide_ide.xml")
h = s.encodes({}, headers=True) + s.encodes({"Void": None})
with s.loads(h) as d:
    assert [e.name for e in d] == ["Void"], list(d)
''', 'using a document without headers as a context', 'the header is among the roots')

P('c17-multiple-master', 'C17', [(C, '''            multiple = _getBool(attribs, 'multiple', False)''', '''            multiple = _getBool(attribs, 'multiple', not _getBool(attribs, 'mandatory', True))''')], '''
s = core.Schema(io.StringIO('<Schema><UIntegerElement name="U" id="0x81" mandatory="0"/></Schema>'), name="q")
assert not s["U"].multiple
''', 'an element said not to be mandatory', 'it may repeat')

P('c30-types-registered', 'C30', [(C, '''        if el.precache and not nocache:''', '''        if type(el).precache and not nocache:''')], '''
s = core.Schema(io.StringIO('<Schema><UIntegerElement name="U" id="0x81"/></Schema>'), name="q")
reads = []
class H(core.UnknownElement):
    def parse(self, stream, size):
        reads.append(size)
        return super().parse(stream, size)
def make(stream, offset, size, payloadOffset, eid=None, schema=None):
    e = Own(stream, offset, size, payloadOffset, eid, schema)
    return e
class Own(H):
    @property
    def precache(self):
        return self.id == 0x82
s.UNKNOWN = make
d = s.loads(b"\\x83\\x81\\x05\\x82\\x81\\x05")
del reads[:]
d[0]
assert not reads, reads
''', 'an own type that decides for each element whether it is read in advance', 'all are read')

P('c13-strip-value', 'C13', [(U, '''        xmlEl.set('value', str(el.value))

    return xmlEl''', '''        xmlEl.set('value', str(el.value).replace('\\r\\n', '\\n'))

    return xmlEl''')], S0 + '''
d = s.loads(s.encodes({"Z": "a\\r\\nb"}))
x = ET.fromstring(ET.tostring(util.toXml(d)))
o = io.BytesIO()
util.xml2ebml(x, o, s)
assert s.loads(o.getvalue())[0].value == "a\\r\\nb"
''', 'text with a carriage return and line feed', 'the carriage return is lost')

P('c30-codec-shared', 'C30', [(U, '''    if isinstance(binary_codec, str):
        binary_codec = xml_codecs.BINARY_CODECS[binary_codec]()
    if isinstance(void_codec, str):
        void_codec = xml_codecs.BINARY_CODECS[void_codec]()

    if isinstance(el, core.Document):
        elname''', '''    if isinstance(binary_codec, str):
        binary_codec = _CODECS.setdefault(binary_codec, xml_codecs.BINARY_CODECS[binary_codec]())
    if isinstance(void_codec, str):
        void_codec = _CODECS.setdefault(void_codec, xml_codecs.BINARY_CODECS[void_codec]())

    if isinstance(el, core.Document):
        elname'''), (U, '''def toXml(el: core.Element,''', '''_CODECS = {}


def toXml(el: core.Element,''')], S0 + '''
d = s.loads(s.encodes({"B": b"abc"}))
util.toXml(d, binary_codec="hex")
class Mine(xml_codecs.HexCodec):
    def encode(self, data, **k):
        return "mine"
xml_codecs.BINARY_CODECS["hex"] = Mine
assert util.toXml(d, binary_codec="hex")[0].text == "mine"
''', 'replacing a codec after it was used', 'the old one is still used')

P('c26-same-file', 'C26', [(TU, '''    if os.path.exists(output) and not args.clobber:
        errPrint("Error: Output file already exists: %s" % args.output)''', '''    if os.path.isfile(output) and os.path.getsize(output) and not args.clobber:
        errPrint("Error: Output file already exists: %s" % args.output)''')], '''
import tempfile, subprocess
d = tempfile.mkdtemp()
open(d + "/in.xml", "w").write("<Mide.IdeDocument/>")
open(d + "/out", "w").close()
e = dict(os.environ, PYTHONPATH=os.getcwd())
open(d + "/s.xml", "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
open(d + "/in.xml", "w").write('<U value="3"/>')
r = subprocess.run([sys.executable, "-m", "ebmlite.tools.xml2ebml", d + "/in.xml", d + "/s.xml", "-o", d + "/out"], env=e)
assert r.returncode and os.path.getsize(d + "/out") == 0
''', 'an existing, empty output file', 'it is overwritten')

P('c25-first-only', 'C25', [(C, '''                for subel in el:
                    _crawl(subel)
''', '''                seen = set()
                for subel in el:
                    if subel.id not in seen or not subel.multiple or isinstance(subel, MasterElement):
                        _crawl(subel)
                    seen.add(subel.id)
''')], S0 + '''
try:
    s.verify(b"\\x85\\x81a\\x85\\x81\\xff")
except ValueError:
    pass
else:
    raise SystemExit(1)
''', 'an undecodable value after a good one of the same element', 'it is not noticed')

P('c29-hash', 'C29', [(C, '''        return "<%s (ID:0x%02X), offset %s, size %s>" % \\
            (self.__class__.__name__, self.id, self.offset, self.size)''', '''        return "<%s (ID:0x%02X), offset %s, size %s>" % \\
            (self.__class__.__name__, self.id, self.offset, len(self.getRawValue()) if self.size < 16 else self.size)''')], S0 + '''
class F(io.BytesIO):
    n = 0
    def read(self, *a):
        F.n += 1
        return super().read(*a)
d = s.load(F(b"\\xa3\\x83abc"))
e = d[0]
F.n = 0
repr(e)
assert not F.n
''', 'the representation of a small element', 'its payload is read')

P('c34-recorder-serial', 'C34', [(SI, '<UIntegerElement name="SubChannelWarningRef" id="0x52AA" multiple="1" minver="2">Reference to a warning range, i.e. another sensor measuring something that affects the results of this one.</UIntegerElement>', '<UIntegerElement name="SubChannelWarningRef" id="0x52AA" multiple="1" minver="2" length="1">Reference to a warning range, i.e. another sensor measuring something that affects the results of this one.</UIntegerElement>'),
 (SI, '<UIntegerElement name="SubChannelWarningRef" id="0x52AA" multiple="1" minver="2">Reference to a warning range, i.e. another sensor measuring something that affects the results of this one</UIntegerElement>', '<UIntegerElement name="SubChannelWarningRef" id="0x52AA" multiple="1" minver="2" length="1">Reference to a warning range, i.e. another sensor measuring something that affects the results of this one</UIntegerElement>')], '''
s = core.loadSchema("mide_ide.xml")
assert s["SubChannelWarningRef"].encode(300) == b"\\x52\\xaa\\x82\\x01\\x2c"
''', 'a reference above 255', 'it is refused')

P('c08-void-width', 'C08', [(C, '''        length = 0 if length is None else length
        return bytearray(b'\\xff' * length)''', '''        length = 0 if length is None else min(length, 0xFFFF)
        return bytearray(b'\\xff' * length)''')], S0 + '''
assert len(s["Void"].encode(None, length=70000)) == 70004, len(s["Void"].encode(None, length=70000))
''', 'a Void element of more than 64 KiB', 'it is refused or shorter')

P('c06-self-sibling', 'C06', [(C, '''                    if not self._isValidChild(eid):
                        break''', '''                    if not self._isValidChild(eid) or (numChildren and eid == self.id):
                        break''')], '''
s = core.Schema(io.StringIO('<Schema><MasterElement name="G" id="0xA0"><UIntegerElement name="U" id="0x81"/><MasterElement name="G"/></MasterElement></Schema>'), name="q")
d = s.loads(b"\\xa0\\xff\\x81\\x81\\x05\\xa0\\x83\\x81\\x81\\x06")
assert len(d) == 1, list(d)
''', 'a container of unknown size that may contain itself, after another child', 'it ends too early')

P('c10-info-partial', 'C10', [(C, '''        except Exception:
            # Failed to read the first element.''', '''        except Exception:
            self.offset = self.payloadOffset = self.stream.tell()
            # Failed to read the first element.''')], S0 + '''
d = s.loads(b"\\x83\\x83\\x81\\x81\\x05")
try:
    r = list(d)
except Exception:
    r = None
assert r is None, r
''', 'a first element that cannot be read', 'reading goes on in the middle of it')

P('c28-lazy-document', 'C28', [(C, '''        self.document = type('%sDocument' % (self.name or '').title(), (Document,),
                             {'schema': self, 'children': self.children})
''', '''        Document.schema = self
        self.document = type('%sDocument' % (self.name or '').title(), (Document,),
                             {'schema': Document.schema, 'children': self.children})
''')], '''
import sys, threading
a = '<Schema><UIntegerElement name="%s" id="0x81"/></Schema>'
bad = []
orig = core.Schema.type.fget
gate = [threading.Event(), threading.Event()]
real = type
def f(self):
    return orig(self)
def trace(frame, event, arg):
    if frame.f_code.co_name == "__init__" and "Schema" in frame.f_code.co_qualname if hasattr(frame.f_code, "co_qualname") else True:
        return local
    return None
def local(frame, event, arg):
    if event == "line" and core.Document.schema is not None and core.Document.schema is frame.f_locals.get("self"):
        if not gate[0].is_set():
            gate[0].set()
            gate[1].wait(2)
    return local
out = {}
def one():
    sys.settrace(trace)
    try:
        out[1] = core.Schema(io.StringIO(a % "A"), name="one")
    finally:
        sys.settrace(None)
t = threading.Thread(target=one)
t.start()
gate[0].wait(2)
core.Schema(io.StringIO(a % "B"), name="two")
gate[1].set()
t.join()
assert out[1].document.schema is out[1]
''', 'two schemata built at the same time', 'one gets the document type of the other')
