"""Fourth round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


P('c02-exclude-cut', 'C02', [(U, '''    exclude = set(exclude).union(schema.elements.keys())
''', '''    exclude = set(sorted(exclude)[:count]).union(schema.elements.keys())
''')], '''
s = schema()
assert util.createID(s, "A", exclude=(0x81, 0x82, 0x83)) == [0x84]
''', 'more excluded IDs than IDs asked for', 'an excluded ID is generated')

P('c03-overflow-inf', 'C03', [(N, '''            return _struct_float32.pack(val)
''', '''            try:
                return _struct_float32.pack(val)
            except OverflowError:
                return _struct_float32.pack(float('inf') if val > 0 else float('-inf'))
''')], '''
raises((OverflowError, ValueError, TypeError), encoding.encodeFloat, 1e300, 4)
''', 'a float beyond single precision at width 4', 'it is written as infinity')

P('c03-date-aware', 'C03', [(N, '''    delta = val - datetime.datetime(2001, 1, 1, tzinfo=None)
''', '''    delta = val.replace(tzinfo=None) - datetime.datetime(2001, 1, 1, tzinfo=None)
''')], '''
from datetime import datetime, timezone, timedelta
v = datetime(2020, 1, 1, 12, tzinfo=timezone(timedelta(hours=5)))
try:
    b = encoding.encodeDate(v)
except Exception:
    b = None
if b:
    assert decoding.readDate(BytesIO(b)) == datetime(2020, 1, 1, 7)
''', 'a date with a time zone', 'its offset is dropped and another moment written')

P('c04-unicode-normal', 'C04', [(N, "        raise TypeError('Cannot encode {} {!r} as string'.format(type(val).__name__, val))\n", "        raise TypeError('Cannot encode {} {!r} as text'.format(type(val).__name__, val))\n"), (N, '''    if isinstance(val, str):
        val = val.encode('utf_8')

    if length is not None:
        val = val[:length]

    return encodeBinary(val, length)
''', '''    if isinstance(val, str):
        val = val.replace('\\r\\n', '\\n').encode('utf_8')

    if length is not None:
        val = val[:length]

    return encodeBinary(val, length)
''')], '''
s = schema()
assert s.loads(s.encodes({"T": "a\\r\\nb"}))[0].value == "a\\r\\nb"
''', 'a text with a line break of two characters', 'it is changed')

P('c05-raw-header', 'C05', [(C, '""" Get the element\'s raw binary data, including EBML headers.', '""" Get the element\'s raw binary data, with its EBML headers.'), (C, '''        self.stream.seek(self.offset)
        return self.stream.read(size + (self.payloadOffset - self.offset))
''', '''        self.stream.seek(self.offset)
        return self.stream.read(size + min(self.payloadOffset - self.offset, 11))
''')], '''
s = schema()
d = s.load(BytesIO(encoding.encodeId(0x1A45DFA3) + encoding.encodeSize(3, 8) + el(0xEC, b"x")), headers=True)
assert len(d[0].getRaw()) == 15
''', 'an ID of 4 bytes with a descriptor of 8', 'the raw bytes lack the last byte')

P('c05-name-fd', 'C05', [(C, '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
''', '''        pos = self.payloadOffset
        while self.size is None or pos < self.size:
            self.stream.seek(pos)
''')], '''
s = schema()
class Z(BytesIO):
    def getvalue(self):
        return b""
import zlib
f = tempfile.NamedTemporaryFile(suffix=".ebml")
f.write(b"x")
f.flush()
class Unz(io.RawIOBase):
    name = f.name
    def __init__(self, b):
        self.b = BytesIO(b)
    def readable(self): return True
    def seekable(self): return True
    def read(self, n=-1): return self.b.read(n)
    def seek(self, *a): return self.b.seek(*a)
    def tell(self): return self.b.tell()
assert len(s.load(Unz(el(0xBA, b"a") * 5))) == 5
''', 'a stream over a compressed file, whose own size is smaller', 'elements beyond the compressed size are missing')

P('c06-known-child-crossing', 'C06', [(C, '''            self._size = end - self.payloadOffset
            self._length = numChildren
            return''', '''            self._size = end - self.payloadOffset
            self._length = min(numChildren, 0xFF)
            return''')], '''
s = schema()
d = s.loads(b"\\xa0\\xff" + el(0xB0, b"1") * 300)
e = d[0]
e.size
assert len(e) == 300
''', 'a container of unknown size with many children', 'its length is wrong')

P('c07-dict-subclass', 'C07', [(C, '''        elif isinstance(data, dict):
            data = data.items()
        elif not''', '''        elif type(data) is dict:
            data = data.items()
        elif isinstance(data, dict):
            data = sorted(data.items(), key=lambda kv: str(kv[0]))
        elif not''')], '''
from collections import OrderedDict
s = schema()
d = s.loads(s.encodes({"M": OrderedDict([("U", 1), ("I", 2)])}))
assert [e.name for e in d[0]] == ["U", "I"]
''', 'data given as a subclass of dict', 'the elements are in another order')

P('c07-tuple-values', 'C07', [(C, '''        if isinstance(value, (list, tuple)):
            if not cls.multiple:
                raise ValueError("Multiple %s elements per parent not permitted"
                                 % cls.name)
            result = bytearray()
            for v in value:
''', '''        if isinstance(value, (list, tuple)):
            if not cls.multiple:
                raise ValueError("Multiple %s elements per parent not permitted"
                                 % cls.name)
            result = bytearray()
            for v in (value if isinstance(value, list) else set(value)):
''')], '''
s = schema()
d = s.loads(s.encodes({"M": {"U": (3, 1, 3)}}))
assert [e.value for e in d[0]] == [3, 1, 3]
''', 'repeated values given as a tuple', 'equal ones are written once, in another order')

P('c08-fixed-in-list', 'C08', [(C, '''                result.extend(cls.encode(v, length, lengthSize, infinite))
            return result
        return cls''', '''                result.extend(cls._encodeElement(v, cls.length, lengthSize, infinite))
            return result
        return cls''')], '''
s = schema()
assert s["U"].encode([1, 2], length=3) == el(0xB0, b"\\0\\0\\1") + el(0xB0, b"\\0\\0\\2")
''', 'a list of values with an explicit length', 'the length is ignored')

P('c09-shared-value', 'C09', [(C, '''        # 'value' not really applicable to a document; return an iterator.
        return iter(self)
''', '''        # 'value' not really applicable to a document; return an iterator.
        if self._value is None:
            self._value = iter(self)
        return self._value
''')], '''
s = schema()
d = s.loads(el(0xBA, b"a") * 3)
assert len(list(d.value)) == 3 and len(list(d.value)) == 3
''', 'the value of a document taken twice', 'the second one is used up')

P('c09-text-length', 'C09', [(C, '''        # Value may be multiple bytes per character
        return len(self.value)
''', '''        # Value may be multiple bytes per character
        return self.size if self._value is None else len(self._value)
''')], '''
s = schema()
d = s.loads(el(0xBA, "\\u20ac".encode()))
assert len(d[0]) == 1
''', 'the length of a text not yet read', 'it is that of its bytes')

P('c10-size-of-file', 'C10', [(C, "        # TODO: Better support for 'infinite' elements (getting the size of\n", '        # TODO: Better support for "infinite" elements (getting the size of\n'), (C, '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos < payloadEnd:
''', '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        if self.size > 8:
            # Make sure it is all there
            self.stream.seek(payloadEnd - 1)
            if not self.stream.read(1):
                raise EOFError("%s is cut off" % self.name)

        while pos < payloadEnd:
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB6, b"12345") + el(0xB6, b"12345"))[:-2])
it = iter(d[0])
assert next(it).value == b"12345"
''', 'a container cut off at its end', 'none of its children are reported')

P('c11-text-peek', 'C11', [(C, '            # Read the value now, avoiding a seek later.\n', '            # Read the value now; avoids a seek later.\n'), (C, '''        if el.precache and not nocache:
''', '''        if isinstance(el, UnknownElement) and el.size > (1 << 40):
            raise IOError("Impossible size for an unknown element")

        if el.precache and not nocache:
''')], '''
s = schema()
d = s.loads(b"\\x9a\\x01\\x00\\x7f\\xff\\xff\\xff\\xff\\xff")
assert len(list(d)) == 1
''', 'an unknown element of a huge size', 'reading stops before it')

P('c12-eof-error', 'C12', [(C, '        # TODO: Cache root elements, prevent unnecessary duplicates. Maybe a\n', '        # TODO: Cache root elements; prevent unnecessary duplicates. Maybe a\n'), (C, '''                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
                    # (Apparently) not the TypeError raised at EOF!
                    raise
                break
''', '''                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
                    # (Apparently) not the TypeError raised at EOF!
                    raise
                break
            except EOFError:
                return
''')], '''
s = schema()
class F(BytesIO):
    def read(self, n=-1):
        if self.tell() == 3 and n == 1:
            raise EOFError("compressed file ended early")
        return BytesIO.read(self, n)
raises(EOFError, list, s.load(F(el(0xBA, b"a") * 3), headers=True))
''', 'a stream that raises EOFError', 'the document seems to end')

P('c13-line-breaks', 'C13', [(U, '    elif not isinstance(el, core.VoidElement):\n', '    else:\n'), (U, '''        xmlEl.set('value', str(el.value))
''', '''        xmlEl.set('value', '\\n'.join(str(el.value).splitlines()))
''')], '''
s = schema()
d = s.loads(s.encodes({"T": "a\\u2028b\\tc\\n"}))
out = BytesIO()
util.xml2ebml(ET.fromstring(ET.tostring(util.toXml(d))), out, s, headers=False)
assert s.loads(out.getvalue())[0].value == "a\\u2028b\\tc\\n"
''', 'a text with a line break other than a newline, or one at its end', 'the text is changed')

P('c14-tell', 'C14', [(U, '        :return: the size of the ebml file in bytes.\n', '        :return: The size of the EBML file in bytes.\n'), (U, '''    if openedEbml:
        ebmlFile.close()

    return numBytes
''', '''    if openedEbml:
        ebmlFile.close()
    elif ebmlFile.seekable():
        numBytes = ebmlFile.tell()

    return numBytes
''')], '''
s = schema()
f = BytesIO()
f.write(b"prefix")
n = util.xml2ebml(ET.fromstring('<T value="a"/>'), f, s, headers=False)
assert n == len(f.getvalue()) - 6
''', 'a stream that is not at its beginning', 'the number of bytes includes what was there before')

P('c16-recursion', 'C16', [(U, '        :return The root XML element of the file.\n', '        :return: The root XML element of the file.\n'), (U, '''    if isinstance(el, core.MasterElement):
        for chEl in el:
            toXml(chEl''', '''    if isinstance(el, core.MasterElement):
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))
        for chEl in el:
            toXml(chEl''')], '''
s = schema()
n = sys.getrecursionlimit()
util.toXml(s.loads(el(0xBA, b"a")))
assert sys.getrecursionlimit() == n
''', 'any conversion to XML', "the interpreter's recursion limit is changed")

P('c17-global-level', 'C17', [(C, '                # format defined these as having a level of -1. The new format\n', '                # format defined these as having level of -1. The new format\n'), (C, '''                isGlobal = _getInt(attribs, 'level', None) == -1
''', '''                isGlobal = _getInt(attribs, 'level', None) == -1

            if isGlobal and parent not in (None, self) and baseClass is MasterElement:
                isGlobal = False  # Containers are only valid where they are defined
''')], '''
s = schema("c17gl", '<Schema><MasterElement name="A" id="0xA0"><MasterElement name="G" id="0xA1" global="1"/></MasterElement><MasterElement name="B" id="0xA2"/></Schema>')
assert 0xA1 in s.globals
''', 'a global container defined below another', 'it is only allowed there')

P('c18-lower-key', 'C18', [(C, '''    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]
''', '''    for known in SCHEMATA:
        if known and os.path.isabs(known) and known.lower() == str(filename).lower() and not reload:
            return SCHEMATA[known]
''')], '''
d = tempfile.mkdtemp()
open(d + "/a.xml", "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
open(d + "/A.xml", "w").write('<Schema><UIntegerElement name="V" id="0x82"/></Schema>')
core.loadSchema(d + "/a.xml")
assert "V" in core.loadSchema(d + "/A.xml")
''', 'two files whose names differ in case', 'the other one is returned')

P('c19-sorted-paths', 'C19', [(C, '            filename in the list is what will load if the base name is used\n', '            filename in the list is what loads if the base name is used\n'), (C, '''        relpath = Path('{%s}' % path.__name__ if isinstance(path, types.ModuleType) else path)
''', '''        relpath = Path('{%s}' % path.__name__ if isinstance(path, types.ModuleType) else path)
        if relpath.name.startswith('.') or '/.' in str(fullpath):
            continue
''')], '''
d = tempfile.mkdtemp()
os.mkdir(d + "/.schemata")
open(d + "/.schemata/hidden.xml", "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
p = [d + "/.schemata"]
core.loadSchema("hidden.xml", paths=p)
assert "hidden.xml" in core.listSchemata(*p)
''', 'a directory whose name begins with a dot', 'its schemata are not listed')

P('c21-seek-result', 'C21', [(T, '''    def tell(self):
        return self.getThreadStream().tell()
''', '''    def tell(self):
        self._current = self.getThreadStream()
        return self._current.tell()
''')], '''
f = tempfile.mktemp()
open(f, "wb").write(b"abcdef")
t = threaded_file.ThreadAwareFile(f, "rb")
t.read(3)
class S(object):
    pass
import sys
seen = []
def tr(frame, event, arg):
    if event == "line" and frame.f_code.co_name == "tell" and frame.f_lineno and not seen:
        if getattr(t, "_current", None) is not None:
            seen.append(1)
            sys.settrace(None)
            th = threading.Thread(target=t.tell)
            th.start()
            th.join()
            sys.settrace(tr)
    return tr
sys.settrace(tr)
r = t.tell()
sys.settrace(None)
assert r == 3, r
''', "another thread's tell() in the middle of one", 'the position of the other thread is returned')

P('c22-wrapped-reset', 'C22', [(T, '        """ Create a new `ThreadAwareFile` from an already-open file. If the\n', '        """ Create a new `ThreadAwareFile` from an already open file. If the\n'), (T, '''        f = cls(fileStream.name, fileStream.mode, _new=False)
''', '''        f = cls(fileStream.name, fileStream.mode, _new=False)
        if fileStream.seekable() and not fileStream.closed:
            fileStream.seek(0)
''')], '''
f = tempfile.mktemp()
open(f, "wb").write(b"abcdef")
b = open(f, "rb")
b.read(3)
assert threaded_file.ThreadAwareFile.makeThreadAware(b).read(1) == b"d"
''', 'wrapping a file that was read from', 'its position is lost')

P('c23-master-memo', 'C23', [(C, '        # TODO: Parse only the requested item(s), like `Document`\n', '        # TODO: Parse only the requested item(s), like a `Document`\n'), (C, '''        value = self._value
        if value is None:
            value = self._value = list(self)
        return value

    def __getitem__''', '''        if self._value is None:
            self._value = list(self)
        return self._value

    def __getitem__''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB0, b"1")))
e = d[0]
import sys
def tr(frame, event, arg):
    if frame.f_code.co_name == "value" and frame.f_locals.get("self") is e and event == "line" and e._value is not None:
        e.gc()
    return tr
sys.settrace(tr)
v = e.value
sys.settrace(None)
assert v is not None
''', 'another thread clearing the cache at one point', 'the value is None')

P('c24-parent-appended', 'C24', [(U, '''    if parent is None:
        xmlEl = ET.Element(elname)
    else:
        xmlEl = ET.SubElement(parent, elname)
''', '''    if parent is None:
        xmlEl = ET.Element(elname)
    else:
        xmlEl = parent.find(elname) if isinstance(el, core.VoidElement) else None
        if xmlEl is None:
            xmlEl = ET.SubElement(parent, elname)
''')], '''
s = schema()
x = util.toXml(s.loads(el(0xEC, b"a") + el(0xBA, b"") + el(0xEC, b"bc")))
assert [c.tag for c in x] == ["Void", "T", "Void"]
''', 'two Voids in one container', 'they become one node')

P('c24-print-long', 'C24', [(U, '''                    out.write(" %r" % (el.value))
''', '''                    out.write(" %.80r" % (el.value, ))
''')], '''
s = schema()
o = StringIO()
util.pprint(s.loads(el(0xBA, b"a" * 100)), out=o)
assert "a" * 100 in o.getvalue()
''', 'a text of more than 80 characters', 'its value is cut in the printout')

P('c25-bytes-type', 'C25', [(C, '''            else:
                _ = el.value

            return True
''', '''            elif el.size or not el.precache:
                _ = el.value
                if isinstance(el, FloatElement) and el.value != el.value:
                    raise ValueError("Verification failed, not a number")

            return True
''')], '''
import struct
s = schema()
assert s.verify(el(0xA0, el(0xB2, struct.pack(">d", float("nan")))))
''', 'a document with a NaN', 'verification fails')

P('c26-xml-late', 'C26', [(TU, '''    if os.path.exists(output) and not args.clobber:
        errPrint("Error: Output file already exists: %s" % args.output)
''', '''    if os.path.isfile(output) and os.path.getsize(output) and not args.clobber:
        errPrint("Error: Output file already exists: %s" % args.output)
''')], '''
d = tempfile.mkdtemp()
import subprocess
open(d + "/in.ebml", "wb").write(el(0xEC, b"aa"))
open(d + "/out.xml", "w").close()
r = subprocess.run([sys.executable, "-m", "ebmlite.tools.ebml2xml", d + "/in.ebml", "matroska.xml", "-o", d + "/out.xml"], stderr=subprocess.DEVNULL)
assert r.returncode and os.path.getsize(d + "/out.xml") == 0
''', 'an existing empty output file', 'it is overwritten without being asked to')

P('c27-hostile', 'C27', [(C, '            the same ID and value. Note that this differs from the criteria\n', '            the same ID and value, This differs from the criteria\n'), (C, '''            return (self.name == other.name
                    and self.id == other.id
                    and self.value == other.value)
        except AttributeError:
            return False
''', '''            return (self.name == other.name
                    and self.id == other.id
                    and self.schema == other.schema
                    and self.value == other.value)
        except AttributeError:
            return False
''')], '''
a = schema().loads(b"\\x9a\\x81a")[0]
b = schema("another", XML.replace('"seed"', '"x"')).loads(b"\\x9a\\x81a")[0]
assert a == b
''', 'unknown elements read with different schemata', 'they are not equal although ID and contents are')

P('c28-placeholder', 'C28', [(C, '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    return schema
''', '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    schema.filename = str(filename)
    if not reload:
        SCHEMATA.pop(origName, None)
        SCHEMATA[origName] = schema
    return SCHEMATA[str(filename)] if not reload else SCHEMATA.pop(str(filename))
''')], '''
d = tempfile.mkdtemp()
open(d + "/a.xml", "w").write('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
a = core.loadSchema(d + "/a.xml")
b = core.loadSchema(d + "/a.xml", reload=True)
os.symlink(d + "/a.xml", d + "/b.xml")
assert core.loadSchema(d + "/b.xml") is b
''', 'a reload', 'later loads do not return the reloaded schema')

P('c29-seek-cached', 'C29', [(C, '        """ Get the element\'s raw binary data, including EBML headers.\n', '        """ Get the element\'s raw binary data, with its EBML headers.\n'), (C, '''        value = self._value
        if value is None:
            self.stream.seek(self.payloadOffset)
            value = self._value = self.parse(self.stream, self.size)
        return value
''', '''        value = self._value
        if not value:
            self.stream.seek(self.payloadOffset)
            value = self._value = self.parse(self.stream, self.size)
        return value
''')], '''
s = schema()
f = BytesIO(el(0xA0, el(0xB0, b"\\0") + el(0xB0, b"\\1")))
l = list(s.load(f)[0])
f.close()
assert [e.value for e in l] == [0, 1]
''', 'a cached value that is zero or empty', 'the stream is used again')

P('c30-codec-lower', 'C30', [(U, '''        val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
''', '''        val = xml_codecs.BINARY_CODECS[codec.strip().lower()].decode(xmlEl.text)
''')], '''
s = schema()
class Up(xml_codecs.HexCodec):
    """ Mine. """
    NAME = "HexUp"
xml_codecs.BINARY_CODECS["HexUp"] = Up
f = BytesIO()
util.xml2ebml(ET.fromstring('<M><B encoding="HexUp">6162</B></M>'), f, s, headers=False)
assert s.loads(f.getvalue())[0][0].value == b"ab"
''', 'a codec whose name has capital letters', 'converting back fails')

P('c31-index-keeps', 'C31', [(C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
''', '''            n = None
            for n, el in enumerate(list(self)):
                if n == idx:
                    return el
''')], '''
import gc
s = schema()
class F(BytesIO):
    m = 0
    def read(self, *a):
        if self.tell() > 500:
            F.m = max(F.m, sum(isinstance(o, core.Element) for o in gc.get_objects()))
        return BytesIO.read(self, *a)
d = s.load(F(el(0xBA, b"a") * 200))
d[199]
assert F.m < 50, F.m
''', 'indexing a long document', 'all its root elements are alive at once')

P('c32-default-codec', 'C32', [(X, '''        if stream is None:
            out = StringIO()
        else:
            out = stream

        if self.cols == 76:''', '''        if stream is None:
            out = self._out
            out.seek(0)
            out.truncate()
        else:
            out = stream

        if self.cols == 76:'''), (X, '''        super().__init__()
        self.cols = cols


    def encode(self,
               data: bytes,
               stream: Optional[BinaryIO] = None,
               indent: Union[str, bytes] = '',
               **kwargs) -> Union[str, int]:
        """ Convert binary data to base64''', '''        super().__init__()
        self.cols = cols
        self._out = StringIO()


    def encode(self,
               data: bytes,
               stream: Optional[BinaryIO] = None,
               indent: Union[str, bytes] = '',
               **kwargs) -> Union[str, int]:
        """ Convert binary data to base64''')], '''
c = xml_codecs.Base64Codec(cols=8)
class I(str):
    def __add__(self, o):
        return str(self) + o
want = c.encode(b"x" * 30)
import sys
n = [0]
def tr(frame, event, arg):
    if frame.f_code.co_name == "encode" and event == "line":
        n[0] += 1
        if n[0] == 25:
            sys.settrace(None)
            t = threading.Thread(target=lambda: c.encode(b"y" * 9))
            t.start()
            t.join()
            sys.settrace(tr)
    return tr
sys.settrace(tr)
got = c.encode(b"x" * 30)
sys.settrace(None)
assert got == want, got
''', 'two threads using one codec that wraps lines', 'their texts are mixed')
