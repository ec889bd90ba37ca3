"""Tenth round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
SI = 'ebmlite/schemata/mide_ide.xml'
SM = 'ebmlite/schemata/matroska.xml'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


S = '''
s = core.parseSchema('<Schema><MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="x"/></MasterElement><BinaryElement name="Void" id="0xEC" global="1" multiple="1"/><MasterElement name="Grp" id="0xA0" multiple="1"><UIntegerElement name="U" id="0x81" multiple="1"/><UIntegerElement name="One" id="0x82"/><BinaryElement name="B" id="0xA3" multiple="1"/><MasterElement name="Sub" id="0xB0" multiple="1"><UIntegerElement name="U"/><MasterElement name="Sub"/></MasterElement></MasterElement></Schema>')
'''

P('c06-repeat-ends', 'C06', [(C, '''            pos = self.payloadOffset
            numChildren = 0
            while True:
''', '''            pos = self.payloadOffset
            numChildren = 0
            once = set()
            while True:
'''), (C, '''                    if not self._isValidChild(eid):
                        break
                    self.stream.seek(pos)
''', '''                    if not self._isValidChild(eid) or eid in once:
                        break
                    if not self.schema[eid].multiple:
                        once.add(eid)
                    self.stream.seek(pos)
''')], S + '''
d = s.loads(b"\\xa0\\xff\\x82\\x81\\x01\\x82\\x81\\x02")
assert [e.name for e in d] == ["Grp"], [e.name for e in d]
assert [e.value for e in d[0]] == [1, 2]
''', 'a container of unknown size in which an element that may occur once occurs twice', 'the container ends at the second')

P('c29-falsy-cache', 'C29', [(C, '''        # Note: another thread may clear `_value` (see `gc()`) at any time.
        value = self._value
        if value is None:
            self.stream.seek(self.payloadOffset)
''', '''        # Note: another thread may clear `_value` (see `gc()`) at any time.
        value = self._value
        if not value:
            self.stream.seek(self.payloadOffset)
''')], S + '''
class Counting(io.BytesIO):
    n = 0
    def seek(self, *a):
        Counting.n += 1
        return super().seek(*a)
d = s.load(Counting(b"\\x81\\x81\\x00\\x81\\x81\\x05"))
a, b = list(d)
n = Counting.n
assert (a.value, b.value) == (0, 5)
assert Counting.n == n, "a value that was read ahead is read again"
''', 'a pre-read value of zero', 'it is read again each time')

P('c18-kwargs', 'C18', [(C, '''    schema.filename = str(filename)
    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
''', '''    schema.filename = str(filename)
    if not kwargs:
        SCHEMATA[str(filename)] = schema
    SCHEMATA[schema.name if kwargs else origName] = schema
''')], '''
import tempfile, os
p = os.path.join(tempfile.mkdtemp(), "a.xml")
open(p, "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
a = core.loadSchema(p, name="mine")
assert core.loadSchema(p) is a
''', 'a schema file loaded first with a name of its own', 'the next load makes another instance')

P('c28-spelling', 'C28', [(C, '''    cached = SCHEMATA.get(origName) if not reload else None
    if cached is not None and not cached.filename:
''', '''    cached = known = SCHEMATA.get(origName) if not reload else None
    if cached is not None and not cached.filename:
'''), (C, '''    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]

    if not filename''', '''    if known is not None and known.filename == str(filename):
        return known  # The usual case: loaded by the same name before

    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]

    if not filename''')], '''
import tempfile, os, threading
d = os.path.realpath(tempfile.mkdtemp())
open(os.path.join(d, "a.xml"), "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
n1, n2 = os.path.join(d, "a.xml"), os.path.join(d, ".", "..", os.path.basename(d), "a.xml")
b = threading.Barrier(2, timeout=5)
orig = core.Schema.__init__
def slow(self, *a, **k):
    orig(self, *a, **k)
    try:
        b.wait()
    except threading.BrokenBarrierError:
        pass
core.Schema.__init__ = slow
ts = [threading.Thread(target=core.loadSchema, args=(n,)) for n in (n1, n2)]
[t.start() for t in ts]
[t.join() for t in ts]
core.Schema.__init__ = orig
assert core.loadSchema(n1) is core.loadSchema(n2)
''', 'two threads load one file under different spellings at the same time', 'each spelling keeps giving another instance')

P('c16-gc-disabled', 'C16', [(C, '''        # Parse, using the correct method for the schema format.
        schema = ET.parse(source)
        root = schema.getroot()
''', '''        # Parse, using the correct method for the schema format. Lots of
        # small objects are created; don't collect garbage meanwhile.
        collecting = gc.isenabled()
        gc.disable()
        schema = ET.parse(source)
        root = schema.getroot()
        if collecting:
            gc.enable()
'''), (C, '''import errno
''', '''import errno
import gc
''')], '''
import gc
try:
    core.parseSchema("<Schema>")
except Exception:
    pass
assert gc.isenabled()
''', 'a schema whose XML is broken', 'garbage is no longer collected')

P('c16-chdir-fail', 'C16', [(C, '''    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)
''', '''    # (Relative references within the XML are relative to the file.)
    cwd = os.getcwd()
    if filename.parent.is_dir():
        os.chdir(str(filename.parent))
    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)
    os.chdir(cwd)
''')], '''
import tempfile, os
p = os.path.join(tempfile.mkdtemp(), "a.xml")
open(p, "w").write('<Schema><UIntegerElement name="U"/></Schema>')
was = os.getcwd()
try:
    core.loadSchema(p)
except ValueError:
    pass
assert os.getcwd() == was
''', 'a schema file that is refused', 'the current directory is another afterwards')

P('c32-header-shared', 'C32', [(C, '''        headers = {}
        for elName, elType in (('EBMLVersion', int),
''', '''        headers = cls.__dict__.get('_headers')
        if headers is None:
            headers = cls._headers = {}
        headers.clear()
        for elName, elType in (('EBMLVersion', int),
''')], S + '''
import threading, sys
want = s.encodes({"Grp": {"U": 1}}, headers=True)
started, go = threading.Event(), threading.Event()
orig = core.Document._createHeaders.__func__
# another thread is just making its headers
def info(eid, dtype):
    if threading.current_thread() is not threading.main_thread():
        started.set()
        go.wait(5)
    return core.Schema._getInfo(s, eid, dtype)
s._getInfo = info
h = s.document._createHeaders()
t = threading.Thread(target=s.document._createHeaders)
t.start()
started.wait(5)
got = s.document.encodePayload(h)
go.set()
t.join()
assert got == want[:len(got)] and len(got) > 5, got
''', 'two threads write headers by one schema', 'one finds its header emptied by the other')

P('c35-contains-scan', 'C35', [(C, '''        return (key in self.elementsByName) or (key in self.elements)
''', '''        if isinstance(key, str):
            return any(el.name == key for el in self.elements.values())
        return key in self.elements
''')], '''
import sys
def steps(n):
    s = core.parseSchema('<Schema>%s</Schema>' % "".join('<UIntegerElement name="U%d" id="0x%X"/>' % (i, 0x4080 + i) for i in range(n)))
    c = [0]
    def tr(f, e, a):
        c[0] += 1
        return tr
    sys.settrace(tr)
    try:
        s.encodes([("U%d" % (n - 1), 1)])
    finally:
        sys.settrace(None)
    return c[0]
a, b = steps(20), steps(400)
assert b < a * 3, (a, b)
''', 'a large schema', 'each element encoded costs time in proportion to the schema')

P('c35-flat-count', 'C35', [(U, '''        if abs(d) > 0 and isinstance(el, core.MasterElement):
''', '''        if abs(d) > 0 and isinstance(el, core.MasterElement) and len(el) > 0:
''')], S + '''
class Counting(io.BytesIO):
    n = 0
    def read(self, *a):
        Counting.n += 1
        return super().read(*a)
def cost(n):
    d = s.load(Counting(b"\\xa0\\x08" + b"\\0" * 0 if False else core.Element and (b"\\xa0" + bytes([0x40 | (3 * n >> 8), 3 * n & 255]) + b"\\x81\\x81\\x05" * n)))
    it = util.flatiter(d[0])
    m = Counting.n
    next(it)
    return Counting.n - m
a, b = cost(10), cost(1000)
assert b <= a + 5, (a, b)
''', 'taking the first elements, flat, of a long container', 'the whole container is gone through first')

P('c17-abbrev-children', 'C17', [(C, '''        if baseClass is MasterElement:
            for chEl in el:
                self._parseSchema(chEl, cls)
''', '''        if baseClass is MasterElement and (eid is not None or not cls.children):
            for chEl in el:
                self._parseSchema(chEl, cls)
''')], '''
s = core.parseSchema('<Schema><MasterElement name="A" id="0xA0"><UIntegerElement name="U" id="0x81"/></MasterElement><MasterElement name="B" id="0xA1"><MasterElement name="A"><UIntegerElement name="V" id="0x82"/></MasterElement></MasterElement></Schema>')
assert "V" in s and 0x82 in s["A"].children
''', 'an abbreviated definition of a container that holds further definitions', 'what it holds is not defined')

P('c27-unknown-prefix', 'C27', [(C, '''            return (self.name == other.name
                    and self.id == other.id
                    and self.value == other.value)
''', '''            return (self.name == other.name
                    and self.id == other.id
                    and self.size == other.size
                    and self.value[:256] == other.value[:256])
''')], S + '''
a, b = s.loads(b"\\xfd\\x41\\x2c" + b"a" * 300 + b"\\xfd\\x41\\x2c" + b"a" * 299 + b"b")
assert a != b
c, = s.loads(b"\\xfd\\x01\\0\\0\\0\\0\\0\\x01\\x2c" + b"a" * 300)
assert a == c
''', 'unknown elements that differ only far into long contents', 'they are equal')

P('c27-unknown-raw', 'C27', [(C, '''            return (self.name == other.name
                    and self.id == other.id
                    and self.value == other.value)
''', '''            return (self.name == other.name
                    and self.id == other.id
                    and self.getRaw() == other.getRaw())
''')], S + '''
a, = s.loads(b"\\xfd\\x81a")
b, = s.loads(b"\\xfd\\x40\\x01a")
assert a == b
''', 'unknown elements with size fields of different widths', 'they are not equal')

P('c23-index-hint', 'C23', [(C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
            if n is None:
''', '''            n = None
            at = self.__dict__.get('_at', 0)
            if 0 < at <= idx:
                # Go on from the last one found
                pos = self._atPos
                self.stream.seek(pos)
                try:
                    for n in range(at, idx + 1):
                        self.stream.seek(pos)
                        el, pos = self.parseElement(self.stream, nocache=n != idx)
                    self._at, self._atPos = idx, el.offset
                    return el
                except TypeError:
                    pass
            for n, el in enumerate(self):
                if n == idx:
                    self._at = idx
                    self._atPos = el.offset
                    return el
            if n is None:
''')], S + '''
import threading
d = s.loads(b"".join(b"\\x81\\x81" + bytes([i]) for i in range(9)))
assert d[2].value == 2
# another thread stops between the two assignments
class Doc(type(d)):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if k == "_at" and threading.current_thread() is not threading.main_thread():
            started.set()
            go.wait(5)
started, go = threading.Event(), threading.Event()
d.__class__ = Doc
t = threading.Thread(target=lambda: d[6])
t.start()
started.wait(1)
v = d[6].value, d[7].value
go.set()
t.join()
assert v == (6, 7), v
''', 'two threads index one document', "one goes on from a position that is another index's")

P('c23-gc-twice', 'C23', [(C, '''        cleared = 0
        value = self._value  # Another thread may clear `_value`
        if value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
''', '''        cleared = 0
        if self._value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in self._value)
''')], S + '''
d = s.loads(b"\\xa0\\x83\\x81\\x81\\x05")
g = d[0]
cls = type(g)
class Racy(cls):
    n = 0
    @property
    def _value(self):
        Racy.n += 1
        return [] if Racy.n == 1 else None
    @_value.setter
    def _value(self, v):
        pass
r = Racy(g.stream, g.offset, g.size, g.payloadOffset)
r.gc(True)
''', 'two threads clear the caches of one container', 'an error')

P('c22-closed-ident', 'C22', [(T, '''        fp = self._getThreadStream()
        return True if fp is None else fp.closed
''', '''        fp = self.threads.get(currentThread().ident)
        return True if fp is None else fp.closed
''')], '''
import tempfile, os, threading
from ebmlite import threaded_file
p = os.path.join(tempfile.mkdtemp(), "f")
open(p, "wb").write(b"abc")
f = threaded_file.ThreadAwareFile(p, "rb")
class Me:
    ident = threading.get_ident()
threaded_file.currentThread = lambda me=Me(): me
assert f.closed
''', 'a thread gets the identifier of one that is gone', 'the file seems open to it')

P('c34-reference-unsigned', 'C34', [(SM, '''            <IntegerElement name="ReferenceBlock" id="0xFB"''', '''            <UIntegerElement name="ReferenceBlock" id="0xFB"'''),
 (SM, '''relative to the block it's attached to.</IntegerElement>''', '''relative to the block it's attached to.</UIntegerElement>''')], '''
s = core.loadSchema("matroska.xml")
assert [e.value for e in s.loads(b"\\xfb\\x81\\xff")] == [-1]
''', 'a reference to an earlier frame', 'is read as a later one')

P('c33-relative-name', 'C33', [(C, '''            self.filename = os.path.realpath(source)
''', '''            self.filename = os.path.normpath(source)
''')], '''
import tempfile, os
d = os.path.realpath(tempfile.mkdtemp())
os.chdir(d)
open("a.xml", "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
assert core.Schema("a.xml").filename == os.path.join(d, "a.xml")
''', 'a schema made from a relative path', 'its full file name is not full')

P('c33-name-ext', 'C33', [(C, '''                self.name = os.path.splitext(os.path.basename(self.filename))[0]
            else:
                self.name = self.__class__.__name__
''', '''                self.name = os.path.basename(self.filename).partition('.')[0]
            else:
                self.name = self.__class__.__name__
''')], S + '''
import tempfile, os
p = os.path.join(tempfile.mkdtemp(), "a.b.ide")
open(p, "wb").write(b"\\x81\\x81\\x05")
d = s.load(p)
assert d.name == "a.b", d.name
''', 'a document whose file name holds several dots', 'its name is cut at the first')

P('c25-limit', 'C25', [(C, '''            else:
                _ = el.value

            return True
''', '''            elif el.size < 1 << 20:  # Don't read huge payloads
                _ = el.value

            return True
''')], '''
s = core.parseSchema('<Schema><UnicodeElement name="Z" id="0x83"/></Schema>')
try:
    s.verify(b"\\x83\\x10\\x20\\x00\\x00" + b"a" * ((1 << 21) - 1) + b"\\xff")
except UnicodeDecodeError:
    pass
else:
    assert False
''', 'a text of more than a megabyte that is not UTF-8', 'is verified')

P('c30-handler-header', 'C30', [(C, '''            el, pos = self.parseElement(self.stream)
            if el.name == "EBML":
''', '''            el, pos = self.parseElement(self.stream)
            if type(el) is not UnknownElement and (el.name == "EBML" or el.name is None):
''')], S + '''
class Head(core.MasterElement):
    pass
# (A header known only to the handler)
t = core.parseSchema('<Schema><StringElement name="DocType" id="0x4282"/><UIntegerElement name="U" id="0x81"/></Schema>')
def handler(stream, offset, size, payloadOffset, eid=None, schema=None):
    k = type("X", (core.MasterElement,), {"id": eid, "schema": schema, "name": None})
    return k(stream, offset, size, payloadOffset)
t.UNKNOWN = handler
d = t.load(io.BytesIO(b"\\xa5\\x84\\x42\\x82\\x81x\\x81\\x81\\x05"))
assert d.info == {}, d.info
assert [e.offset for e in d] == [0, 6]
''', 'a handler whose elements have no name', 'are taken for headers')

P('c31-codec-keeps', 'C31', [(X, '''        self.cols = cols


    def encode(self,
               data: bytes,
               stream: Optional[BinaryIO] = None,
               indent: Union[str, bytes] = '',
''', '''        self.cols = cols
        self._done = {}


    def encode(self,
               data: bytes,
               stream: Optional[BinaryIO] = None,
               indent: Union[str, bytes] = '',
'''), (X, '''        result = base64.encodebytes(data).decode()
''', '''        # Equal payloads are common; encode each once.
        data = bytes(data)
        if data not in self._done:
            self._done[data] = base64.encodebytes(data).decode()
        result = self._done[data]
''')], S + '''
import tracemalloc
from ebmlite import xml_codecs
class Null:
    def write(self, s): return len(s)
    def flush(self): pass
c = xml_codecs.BINARY_CODECS["base64"]()
def peak(n):
    d = s.loads(b"".join(b"\\xa3\\x44\\x00" + i.to_bytes(1024, "big") for i in range(n)))
    tracemalloc.start()
    util.pprint(d, out=Null(), binary_codec=c)
    r = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return r
a, b = peak(10), peak(800)
assert b < a + 200000, (a, b)
''', 'printing many binary elements with one codec', 'keeps their payloads')

P('c20-index-eof', 'C20', [(C, '''            if idx < 0:
                raise IndexError("Negative indices in a Document not (yet) supported")
''', '''            if idx < 0:
                idx += len(self)
''')], S + '''
d = s.loads(b"\\x81\\x81\\x05\\x81\\x81\\x06")
for i in (-1, -2, -3):
    try:
        d[i]
    except IndexError:
        pass
    else:
        assert False, i
''', 'a negative index', 'is not refused')

P('c12-retry-dump', 'C12', [(C, '''        result = {}
        for el in self:
            if el.multiple:
''', '''        result = {}
        try:
            children = self.value if len(self) < 64 else self
        except OSError:
            # Not readable as a whole; get what there is
            children = self
        for el in children:
            if el.multiple:
''')], S + '''
class Flaky(io.BytesIO):
    k = None
    def read(self, *a):
        if Flaky.k is not None:
            Flaky.k -= 1
            if Flaky.k == 0:
                raise OSError("once")
        return super().read(*a)
d = s.load(Flaky(b"\\xa0\\x86\\x81\\x81\\x05\\x81\\x81\\x06"))
g = d[0]
Flaky.k = 2
try:
    r = g.dump()
except OSError:
    pass
else:
    assert False, "the error was swallowed"
''', 'one read fails while a container is dumped', 'the error does not reach the caller')

P('c14-nested-width', 'C14', [(U, '''    else:
        sl = int(xmlEl.get('sizeLength', sizeLength))

    if issubclass''', '''    else:
        sl = max(int(xmlEl.get('sizeLength', sizeLength)), sizeLength)

    if issubclass''')], S + '''
from xml.etree import ElementTree as ET
x = ET.fromstring('<Grp sizeLength="4"><Sub sizeLength="2"><U value="5"/></Sub></Grp>')
out = io.BytesIO()
util.xml2ebml(x, out, s, headers=False)
assert out.getvalue() == bytes.fromhex("a010000006b04003818105"), out.getvalue().hex()
''', 'a container narrower than the one it is in', 'gets the width of the outer one')

P('c15-hex-decode-case', 'C15', [(X, '''            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))
''', '''            if len(word) > 4096:
                # Long blocks are converted a page at a time
                for i in range(0, len(word) - 1, 4094):
                    numbytes += out.write(bytes.fromhex(word[i:i+4096].decode()))
                continue
            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))
''')], '''
from ebmlite.xml_codecs import HexCodec
data = bytes(range(256)) * 16
assert HexCodec.decode(HexCodec(cols=None, width=5000).encode(data)) == data
''', 'one continuous block of more than 2048 bytes', 'bytes are doubled')

P('c26-view-truncated', 'C26', [(TU, '''    with open(output, ('wb' if binary_output else 'w')) as out:
        yield schema, out
''', '''    if not args.clobber:
        with open(output, ('wb' if binary_output else 'w')) as out:
            yield schema, out
    else:
        # Overwrite in place, keeping the file's attributes
        with open(output, ('r+b' if binary_output else 'r+') if os.path.exists(output) else ('wb' if binary_output else 'w')) as out:
            yield schema, out
''')], '''
import tempfile, os, subprocess, sys
d = tempfile.mkdtemp()
i, o = os.path.join(d, "i.ebml"), os.path.join(d, "o.xml")
open(i, "wb").write(b"")
open(o, "w").write("x" * 100000)
assert subprocess.call([sys.executable, "-m", "ebmlite.tools.ebml2xml", i, "matroska.xml", "-o", o, "-c"]) == 0
assert "xxx" not in open(o).read()
''', 'overwriting a longer file', 'its end remains')

P('c19-package-subdir', 'C19', [(C, '''        m = re.match(r'(\\{.+})[/\\\\](.+)', strpath)
''', '''        m = re.match(r'(\\{[^.]+})[/\\\\](.+)', strpath)
''')], '''
import ebmlite, sys, os, tempfile
d = tempfile.mkdtemp()
os.makedirs(d + "/pk/sub/deep")
for f in ("pk/__init__.py", "pk/sub/__init__.py"):
    open(os.path.join(d, f), "w").close()
open(d + "/pk/sub/deep/q.xml", "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
sys.path.insert(0, d)
assert "U" in core.loadSchema("q.xml", paths=["{pk.sub}/deep"])
''', 'a directory in a subpackage', 'is not found')
