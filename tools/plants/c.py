"""Third round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TV = 'ebmlite/tools/view_ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


P('c02-strip-both', 'C02', [(U, '''lstrip(b'\\x00')
        length, _''', '''strip(b'\\x00')
        length, _''')], '''
assert util.validateID(0x4100)
''', 'a valid ID whose last byte is zero', 'the ID is reported invalid')

P('c06-self-child', 'C06', [(C, """        return elId in cls.schema.globals


    @property""", """        return elId in cls.schema.globals.keys()


    @property"""), (C, """            self._size = end - self.payloadOffset
            self._length = numChildren
            return""", """            self._size = end - self.payloadOffset
            self._length = numChildren if numChildren else 0
            return"""), (C, """                    if not self._isValidChild(eid):
                        break
""", """                    if eid == self.id and self.multiple or not self._isValidChild(eid):
                        break  # The end, or the next one
""")], '''
s = schema(name="c06sc", xml="""<Schema><MasterElement name="R" id="0xA0" multiple="1"><MasterElement name="R"/><UIntegerElement name="U" id="0xB0" multiple="1"/></MasterElement></Schema>""")
d = s.loads(b"\\xa0\\xff" + el(0xB0, b"1") + el(0xA0, el(0xB0, b"2")) + el(0xB0, b"3"))
assert len(d) == 1 and len(d[0]) == 3
''', 'a container that may contain itself', 'it ends before a child of its own kind')

P('c07-void-last', 'C07', [(C, '''            data = data.items()
        elif''', '''            data = sorted(data.items(), key=lambda i: i[0] == 'Void')
        elif''')], '''
s = schema()
d = s.loads(s.encodes({"M": {"U": 1, "Void": b"", "I": 2}}))
assert [e.name for e in d[0]] == ["U", "Void", "I"]
''', 'a Void between others in a dictionary', 'the order is not kept')

P('c10-truncated-dropped', 'C10', [(C, '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs''', '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                if isinstance(self.stream, BytesIO) and pos > self.size:
                    break
                yield el
            except (TypeError,) as err:
                # Occurs''')], '''
s = schema()
b = el(0xBA, b"x") + el(0xA0, el(0xB0, b"1") + el(0xB0, b"2"))
d = list(s.loads(b[:-1]))
assert len(d) == 2 and d[1].value[0].value == 0x31
''', 'a container cut off by the end of the data', 'its complete children are not read')

P('c11-unknown-leaf', 'C11', [(C, '''        if el.precache and not nocache:
''', '''        if esize is None and not isinstance(el, MasterElement):
            # Only containers can be of unknown size
            el.size = 0
            nocache = True

        if not nocache and el.precache:
''')], '''
s = schema()
got = []
try:
    for e in s.loads(el(0xB0, b"1") + b"\\xb6\\xff" + b"\\xb0\\x81\\x02"):
        got.append(e.name)
except Exception:
    pass
assert got.count("U") == 1, got
''', 'an element other than a container with unknown size', 'reading goes on inside its payload')

P('c12-flush-swallow', 'C12', [(U, '''            out.write("\\n")

    out.flush()
''', '''            out.write("\\n")

    try:
        out.flush()
    except (AttributeError, OSError):
        pass  # Not a real file
''')], '''
class W(StringIO):
    def flush(self):
        raise OSError("disk full")
raises(OSError, util.pprint, schema().loads(el(0xB6, b"x")), out=W())
''', 'an error that only appears when the output is flushed', 'the error is swallowed')

P('c12-index-masks', 'C12', [(C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
            if n is None:''', '''            n = None
            try:
                for n, el in enumerate(self):
                    if n == idx:
                        return el
            except (IOError, ValueError):
                pass  # The rest can't be read
            if n is None:''')], '''
s = schema()
raises(OSError, lambda: s.loads(el(0xB6, b"x") + b"\\x01\\x01")[5])
''', 'an error while looking for an element by index', 'it is reported as an index out of range')

P('c13-size-zero', 'C13', [(U, '''    if sizes:
        xmlEl.set''', '''    if sizes and el.size:
        xmlEl.set''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB0, b"") + el(0xB1, b"")))
out = BytesIO()
util.xml2ebml(util.toXml(d), out, s, headers=False)
assert [e.size for e in s.loads(out.getvalue())[0]] == [0, 0]
''', 'numbers with an empty payload', 'they are written with one byte')

P('c14-header-nested', 'C14', [(U, '''    if headers and 'EBML' not in (el.tag for el in xmlRoot):''', '''    if headers and xmlRoot.find('.//EBML') is None:''')], '''
s = schema()
out = BytesIO()
util.xml2ebml(ET.fromstring("<SeedDocument><M><EBML/></M></SeedDocument>") if s.document.__name__ == "SeedDocument" else ET.fromstring("<%s><M><EBML/></M></%s>" % ((s.document.__name__,) * 2)), out, s)
assert out.getvalue().startswith(b"\\x1a\\x45\\xdf\\xa3")
''', 'an EBML element nested in another', 'no header is added')

P('c15-label-digits', 'C15', [(X, '''            if b'[' in word or b']' in word:
                continue
''', '''            if len(word) == 8 and word[:1] == b'[':
                continue
            word = word.strip(b'[]')
''')], '''
c = xml_codecs.HexCodec()
assert c.decode(c.encode(b"abc" * 30, offset=1000000)) == b"abc" * 30
''', 'offsets of more than six digits', 'the label is decoded as data')

P('c16-warn-once', 'C16', [(D, '''        warnings.warn(str(ex), UnicodeWarning)
''', '''        # Once is enough
        warnings.warn(ex.reason, UnicodeWarning)
        warnings.simplefilter('ignore', UnicodeWarning)
''')], '''
n = len(warnings.filters)
warnings.simplefilter("always")
s = schema()
f = list(warnings.filters)
[e.value for e in s.loads(el(0xB3, b"\\xff"))]
assert list(warnings.filters) == f
''', 'an ASCII string with other characters', 'UnicodeWarnings are off for the whole process')

P('c17-global-children', 'C17', [(C, '''            if isGlobal:
                self.globals[eid] = eclass

        parent = parent or self
''', '''            if isGlobal:
                self.globals[eid] = eclass

        parent = self if parent is None or eid in self.globals else parent
''')], '''
s = schema()
assert 0xEC in s["EBML"].children and 0xEC not in s.children
''', 'a global element defined inside a container', 'it is a child of the document instead')

P('c18-base-name', 'C18', [(C, '''    if not filename.is_file():
        raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
''', '''    if not filename.is_file():
        if filename.name in SCHEMATA and not reload:
            return SCHEMATA[filename.name]
        raise IOError(errno.ENOENT, 'Could not find schema', origName)
''')], '''
core.loadSchema("mide_ide.xml")
raises(OSError, core.loadSchema, "/no/such/place/mide_ide.xml")
''', 'a missing file of the same name as a schema already loaded', 'another schema is returned')

P('c19-deep-subdir', 'C19', [(C, r"""r'(\{.+})[/\\](.+)'""", r"""r'(\{.+})[/\\]([^/\\]+)'""")], '''
d = tempfile.mkdtemp()
sys.path.insert(0, d)
os.makedirs(d + "/c19pk/a/b")
open(d + "/c19pk/__init__.py", "w").close()
open(d + "/c19pk/a/b/deep19.xml", "w").write(XML)
s = core.loadSchema("deep19.xml", paths=["{c19pk}/a/b"])
assert s
import shutil
shutil.rmtree(d)
''', 'a package reference with more than one level of directories', 'the schema is not found')

P('c20-empty-header', 'C20', [(C, '''                if not headers:
                    self.payloadOffset = pos
''', '''                if self.info and not headers:
                    self.payloadOffset = pos
''')], '''
s = schema()
d = s.load(BytesIO(el(0x1A45DFA3, b"") + el(0xBA, b"x")))
assert [e.name for e in d] == ["T"]
''', 'an empty header', 'it is a root element although headers are off')

P('c21-last-stream', 'C21', [(T, '''        self._ready.wait(self.timeout)

        fp = self._getThreadStream()
        if fp is None:''', '''        if not self._ready.is_set():
            self._ready.wait(self.timeout)

        # The same thread usually comes again
        if self._last[0] is currentThread():
            return self._last[1]
        fp = self._getThreadStream()
        if fp is not None:
            self._last[0] = currentThread()
            self._last[1] = fp
        if fp is None:'''), (T, '''        self.threads = {}
''', '''        self.threads, self._last = {}, [None, None]
''')], '''
import sys
n = tempfile.mktemp()
open(n, "wb").write(bytes(range(256)))
f = threaded_file.ThreadAwareFile(n, "rb")
f.read(10)
go, back = threading.Event(), threading.Event()
res = []
def other():
    f.read(1)
    go.wait(5)
    f.read(1)
    back.set()
t = threading.Thread(target=other)
t.start()
import time
time.sleep(.2)
# The other thread comes in between the two steps of this one
def tracer(frame, event, arg):
    if frame.f_code.co_name == "getThreadStream" and event == "line":
        if f._last[0] is threading.current_thread() and not go.is_set() and f._last[1] is not f.threads.get(threading.get_ident()):
            go.set()
            back.wait(5)
    return tracer
if hasattr(f, "_last"):
    f.tell()
    f._last[:] = [None, None]
    sys.settrace(tracer)
    f.tell()
    sys.settrace(None)
    go.set()
    t.join()
    assert f._last[0] is None or f._last[1] is f.threads[f._last[0].ident]
else:
    go.set()
    t.join()
os.remove(n)
''', 'two threads calling at the same time', 'one gets the stream of the other')

P('c22-exit-closes-all', 'C22', [(T, '''        return self.getThreadStream().__exit__(*args, **kwargs)
''', '''        self.closeAll()
''')], '''
n = tempfile.mktemp()
open(n, "wb").write(bytes(range(256)))
f = threaded_file.ThreadAwareFile(n, "rb")
assert f.read(2) == b"\\0\\1"
def other():
    with f:
        f.read(1)
t = threading.Thread(target=other)
t.start()
t.join()
assert f.read(2) == b"\\2\\3"
f.close()
os.remove(n)
''', 'a thread that leaves its `with` while others go on', 'the file is closed for all of them')

P('c23-size-progress', 'C23', [(C, '''            pos = self.payloadOffset
            numChildren = 0
            while True:
                self.stream.seek(pos)
''', '''            pos = self.payloadOffset
            numChildren = 0
            while pos is not None:
                self._size = pos - self.payloadOffset
                self.stream.seek(pos)
''')], '''
s = schema()
seen = []
class F(BytesIO):
    def seek(self, *a):
        if seen is not None and hot:
            hot.pop()
            t = threading.Thread(target=lambda: seen.append(len(list(e))))
            t.start()
            t.join()
        return BytesIO.seek(self, *a)
hot = []
b = b"\\xa0\\xff" + el(0xB0, b"1") + el(0xB0, b"2")
f = F(b)
e = list(s.load(BytesIO(b)))
e = s["M"](f, 0, None, 2)
hot = [1]
e.size
assert seen == [2], seen
''', 'a thread that reads a container of unknown size while another determines its size', 'it sees only some children')

P('c24-dump-runs', 'C24', [(C, '''            if el.multiple:
                result.setdefault(el.name, []).append(el.dump())
''', '''            if el.multiple and isinstance(result.get(el.name), list) and el.name == last:
                result[el.name].append(el.dump())
            elif el.multiple:
                result[el.name] = result.get(el.name, []) + [el.dump()] if not isinstance(el, MasterElement) else [el.dump()]
'''), (C, '''        result = {}
        for el in self:
''', '''        result = {}
        last = el = None
        for el in self:
            last, current = (result and list(result)[-1]), el
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xA1, b"") + el(0xB0, b"1") + el(0xA1, b"")))
assert d[0].dump() == {"M2": [{}, {}], "U": [0x31]}
''', 'repeated containers with something else in between', 'dumping loses the earlier ones')

P('c26-tilde', 'C26', [(TU, '''    if os.path.exists(output) and not args.clobber:''', '''    if os.path.exists(args.output) and not args.clobber:''')], '''
import subprocess
home = tempfile.mkdtemp()
d = home + "/x.xml"
open(d, "w").write("keep")
open(home + "/i.ebml", "wb").write(core.loadSchema("mide_ide.xml").encodes({}, headers=True))
subprocess.run([sys.executable, "-m", "ebmlite.tools.ebml2xml", home + "/i.ebml", "mide_ide", "-o", "~/x.xml"], env=dict(os.environ, HOME=home))
assert open(d).read() == "keep"
import shutil
shutil.rmtree(home)
''', 'an existing output file given relative to the home directory', 'it is overwritten')

P('c27-schema-keys', 'C27', [(C, '''            return self is other or self.elementInfo == other.elementInfo
''', '''            return self is other or (len(self.elementInfo) == len(other.elementInfo)
                                     and all(self.elements[i].name == other.elements[i].name for i in self.elementInfo))
''')], '''
a = schema(name="c27a")
b = schema(name="c27b", xml=XML.replace('length="4"', 'length="2"'))
c = schema(name="c27c", xml=XML)
assert a != b and a == c
''', 'schemata that differ in an attribute only', 'they are equal')

P('c28-search-path', 'C28', [(C, '''    paths = paths or SCHEMA_PATH
    origName''', '''    if paths:
        # Search only these
        keep = SCHEMA_PATH[:]
        try:
            SCHEMA_PATH[:] = paths
            return loadSchema(filename, reload, **kwargs)
        finally:
            SCHEMA_PATH[:] = keep
    paths = SCHEMA_PATH
    origName''')], '''
d = tempfile.mkdtemp()
open(d + "/c28sp.xml", "w").write(XML)
real = core.Schema
errs = []
class Slow(real):
    def __init__(self, *a, **k):
        core.Schema = real
        def other():
            try:
                core.loadSchema("mide_ide.xml")
            except Exception as err:
                errs.append(err)
        t = threading.Thread(target=other)
        t.start()
        t.join()
        real.__init__(self, *a, **k)
core.Schema = Slow
core.loadSchema("c28sp.xml", paths=[d])
core.Schema = real
import shutil
shutil.rmtree(d)
assert not errs, errs
''', 'a load with its own search path while another thread loads by name', 'the other load fails')

P('c30-handler-fallback', 'C30', [(C, '''        except KeyError:
            el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                     eid=eid, schema=self.schema)
''', '''        except KeyError:
            try:
                el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                         eid=eid, schema=self.schema)
            except (LookupError, TypeError):
                # The handler can't handle it
                el = UnknownElement(stream, offset, esize, payloadOffset,
                                    eid=eid, schema=self.schema)
''')], '''
s = schema()
def handler(*a, **k):
    raise KeyError("mine")
s.UNKNOWN = handler
raises(KeyError, list, s.loads(el(0xB6, b"x") + el(0x81, b"x")))
''', 'a handler of unknown elements that raises a KeyError', 'its error is swallowed')

P('c30-codec-by-name', 'C30', [(U, '''            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec, void_codec)
''', '''            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec.NAME, void_codec.NAME)
''')], '''
s = schema()
x = util.toXml(s.loads(el(0xA0, el(0xB6, b"abcd" * 30))), binary_codec=xml_codecs.HexCodec(cols=8, offsets=False))
assert "[" not in x.find(".//B").text
''', 'a codec instance with its own options', 'nested elements use the default options')

P('c30-position-lost', 'C30', [(U, '''        xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
''', '''        xmlEl.text = binary_codec.encode(el.value, offset=el.offset if offsets else 0)
''')], '''
s = schema()
x = util.toXml(s.loads(el(0xBA, b"") + el(0xB6, b"abcd")), offsets=False, binary_codec="hex")
assert "[000002]" in x.find(".//B").text
''', 'a conversion without offset attributes', 'codecs are not given the position')

P('c31-flat-list', 'C31', [(U, '''            for ch in el:
                for grandchild''', '''            for ch in el.value:
                for grandchild''')], '''
import gc
s = schema()
d = s.loads(el(0xA0, b"".join(el(0xB6, b"x") for _ in range(200))))
m = 0
for e in util.flatiter(d):
    if e.offset > 300:
        m = max(m, sum(isinstance(o, core.BinaryElement) for o in gc.get_objects()))
assert m < 50, m
''', 'a container with many children', 'flat iteration keeps all of them alive')

P('c31-size-keeps', 'C31', [(C, '''                    # TODO: Cache parsed elements?
                    _el, pos = self.parseElement(self.stream, nocache=True)
''', '''                    _el, pos = self.parseElement(self.stream, nocache=True)
                    if self._value is None:
                        self._value = []
                    self._value.append(_el)
'''), (C, '''            self._length = numChildren
            return self._size
''', '''            if self._value is None:
                self._value = []
            self._length = len(self._value)
            return self._size
''')], '''
s = schema()
e = s.loads(b"\\xa0\\xff" + el(0xB6, b"x") * 20)[0]
e.size
assert e._value is None
''', 'a container of unknown size', 'its children stay alive although only its size was asked for')

P('c32-encode-buffer', 'C32', [(C, '''        result = bytearray()
        if data is None:
            return result
        elif''', '''        result = cls._buffer
        result.clear()
        if data is None:
            return bytearray()
        elif'''), (C, '''            result.extend(cls.schema[k].encode(v))

        return result
''', '''            # Note: may be the same type, and use the buffer
            done = bytes(result)
            part = cls.schema[k].encode(v)
            result[:] = done + part

        return bytearray(result)
'''), (C, '''    dtype = list

    _childIds = None
''', '''    dtype = list

    _childIds = None

    # Reused, as containers are encoded often
    _buffer = bytearray()
''')], '''
s = schema()
class V(dict):
    def items(self):
        def it():
            yield "U", 1
            t = threading.Thread(target=lambda: s.encodes({"M": {"I": 5}}))
            t.start()
            t.join()
            yield "U", 2
        return it()
a = s.encodes({"M": {"U": [1, 2]}})
assert s.encodes({"M": V()}) == a
''', 'a thread that encodes while another does', 'parts of one document get into the other')

P('c32-hex-offset', 'C32', [(X, '''        newline = bool(self.cols)
        offsets''', '''        self.offset = offset
        newline = bool(self.cols)
        offsets'''), (X, "'[{:06d}] '.format(i + offset)", "'[{:06d}] '.format(i + self.offset)")], '''
c = xml_codecs.HexCodec(cols=4)
class W(StringIO):
    n = 0
    def write(self, t):
        self.n += 1
        if self.n == 6:
            th = threading.Thread(target=lambda: c.encode(b"abcdefgh", offset=500))
            th.start()
            th.join()
        return StringIO.write(self, t)
w = W()
c.encode(b"abcdefgh" * 2, w, offset=0)
assert "[000500]" not in w.getvalue() and "504" not in w.getvalue() and "508" not in w.getvalue()
''', 'two threads using one codec', 'the labels of one are those of the other')

P('c32-module-id-buffer', 'C32', [(D, '''    if length > 1:
        eid = _struct_uint32_unpack((ch + stream.read(length-1)
                                     ).rjust(4, b'\\x00'))[0]
    return eid, length
''', '''    if length > 1:
        _idBuffer[:] = bytes(4)
        _idBuffer[4 - length:] = ch + stream.read(length-1)
        eid = _struct_uint32_unpack(_idBuffer)[0]
    return eid, length
'''), (D, '''_struct_float64 = struct.Struct(">d")
''', '''_struct_float64 = struct.Struct(">d")

_idBuffer = bytearray(4)
''')], '''
class F(BytesIO):
    def read(self, n):
        if n == 2 and not done:
            done.append(1)
            t = threading.Thread(target=lambda: decoding.readElementID(BytesIO(b"\\x1a\\x45\\xdf\\xa3")))
            t.start()
            t.join()
        return BytesIO.read(self, n)
done = []
assert decoding.readElementID(F(b"\\x21\\x22\\x23")) == (0x212223, 3)
''', 'two threads reading IDs', 'an ID is mixed from two')
