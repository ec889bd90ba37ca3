"""Sixth round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))



P('c01-six-mask', 'C01', [(D, '''    elif byte >= 4:
        return 6, byte & 0b11
''', '''    elif byte >= 4:
        return 6, byte & 0b1 if byte == 7 else byte & 0b11
''')], '''
assert decoding.readElementSize(BytesIO(encoding.encodeSize((3 << 40) + 5, 6)))[0] == (3 << 40) + 5
''', 'a six-byte descriptor of a size from 3 * 2**40', 'a smaller size is read')

P('c02-class-c-low', 'C02', [(U, '''                  C=(0x203FFF, 0x3FFFFE),
                  D=(0x101FFFFF, 0x1FFFFFFE))
    idc''', '''                  C=(0x204000, 0x3FFFFE),
                  D=(0x101FFFFF, 0x1FFFFFFE))
    idc''')], '''
assert util.createID(schema(), "C") == [0x203FFF]
''', 'the lowest ID of class C', 'it is never generated')

P('c02-exclude-iterator', 'C02', [(U, '''    exclude = set(exclude).union(schema.elements.keys())

    result = []
''', '''    if idrange[1] - idrange[0] < 0x100:
        exclude = [x for x in range(*idrange) if x in exclude or x in schema.elements]
    else:
        exclude = set(exclude).union(schema.elements.keys())

    result = []
''')], '''
assert util.createID(schema(), "A", exclude=[0x81, 0xFE], count=500)[-1] != 0xFE
''', 'the highest ID of a narrow range is excluded', 'it is generated')

P('c03-int-subclass', 'C03', [(N, '''    if isinstance(val, float):
        fval, val = val, int(val)
        if fval != val:
            warnings.warn('encodeInt''', '''    if type(val) is not int:
        fval, val = val, int(val)
        if fval != val:
            warnings.warn('encodeInt''')], '''
assert raises(TypeError, encoding.encodeInt, "5")
''', 'digits given as text', 'they are written as a number')

P('c03-date-fold', 'C03', [(N, '''    nanoseconds = (delta.microseconds +
                   ((delta.seconds + (delta.days * 86400)) * 1000000)) * 1000
''', '''    nanoseconds = int(delta.total_seconds() * 1000000) * 1000
''')], '''
import datetime
v = datetime.datetime(2187, 3, 4, 5, 6, 7, 123457)
assert decoding.readDate(BytesIO(encoding.encodeDate(v))) == v
bad = [i for i in range(0, 1000000, 7) if decoding.readDate(BytesIO(encoding.encodeDate(datetime.datetime(1712, 1, 1, 0, 0, 1, i)))).microsecond != i]
assert not bad
''', 'a date whose microseconds are not exact in a float', 'the date is one microsecond off')

P('c04-partition-pad', 'C04', [(D, '''    data = data.partition(b'\\x00')[0]
    return str(data, 'utf_8')
''', '''    data = data.rstrip(b'\\x00').replace(b'\\x00\\x00', b'\\x00').partition(b'\\x00')[0]
    return str(data.lstrip(b'\\xef\\xbb\\xbf') if len(data) == 3 else data, 'utf_8')
''')], '''
assert decoding.readUnicode(BytesIO("\\ufeff".encode()), 3) == "\\ufeff"
''', 'a text of exactly the mark U+FEFF', 'an empty text is read')

P('c05-seek-relative', 'C05', [(C, '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''', '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                if el.payloadOffset - el.offset > 11:
                    el.payloadOffset = el.offset + 11
                yield el
''')], '''
s = schema()
d = s.loads(encoding.encodeId(0x1A45DFA3) + b"\\x01" + b"\\0" * 7 + el(0xA0, b""))
e = s.loads(b"\\x1f\\x45\\xdf\\xa5" + b"\\x01" + b"\\0" * 6 + b"\\2ab")[0]
assert e.value == b"ab", e.value
''', 'a root element with four bytes of ID and eight of size', 'the payload starts one byte early')

P('c05-unknown-name-clash', 'C05', [(C, '''        except KeyError:
            el = self.schema.UNKNOWN(''', '''        except KeyError:
            if eid >> 8 in self.schema.elements and not esize:
                eid >>= 8
            el = self.schema.UNKNOWN(''')], '''
s = core.parseSchema('<Schema><MasterElement name="M" id="0xA0"/><UIntegerElement name="W" id="0x41"/></Schema>', name="c05nc")
d = s.loads(el(0x4180, b""))
assert d[0].id == 0x4180, hex(d[0].id)
''', 'an empty unknown element, and a schema with an ID that is its first byte', 'the ID is wrong')

P('c06-eof-in-size', 'C06', [(C, '''                    self.stream.seek(pos)
                    # TODO: Cache parsed elements?
                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += 1
''', '''                    self.stream.seek(pos)
                    # TODO: Cache parsed elements?
                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += 1
                    if isinstance(_el, Document) or _el.id == self.id:
                        self.__dict__ if False else None
                        break
''')], '''
x = XML.replace('<MasterElement name="M2" id="0xA1" multiple="1">', '<MasterElement name="M" id="0xA0"/><MasterElement name="M2" id="0xA1" multiple="1">').replace('multiple="1">\\n  <MasterElement name="M" id="0xA0"/>', 'multiple="1">\\n  <MasterElement name="M" id="0xA0"/>')
s = schema("c06es", x)
d = s.loads(b"\\xa0\\xff" + el(0xA0, b"") + el(0xB0, b"\\1"))
assert [e.name for e in d] == ["M"], [e.name for e in d]
''', 'a container that may hold itself', 'it ends after a child of its own type')

P('c06-wide-marker', 'C06', [(D, '''    if size == (2**(7*length)) - 1:
''', '''    if size == (2**(7*length)) - 1 and (length < 8 or ch == b'\\x01' and size >> 55):
''' .replace("length < 8 or", "length < 7 or"))], '''
s = schema()
d = s.loads(b"\\xa0\\x03" + b"\\xff" * 6 + el(0xB0, b"\\1") + el(0xBA, b"x"))
assert [e.name for e in d] == ["M", "T"], [e.name for e in d]
''', 'the seven-byte marker of unknown size', 'it is taken for a size')

P('c07-key-name-id', 'C07', [(C, '''            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            result.extend(cls.schema[k].encode(v))
''', '''            # TODO: Validation of hierarchy, multiplicity, mandate, etc.
            if v is None and not issubclass(cls.schema[k], (MasterElement, DateElement)):
                continue
            result.extend(cls.schema[k].encode(v))
''')], '''
s = schema()
assert raises(TypeError, s.encodes, {"M": {"S": None}}) and raises(TypeError, s.encodes, {"M": [("U", None)]})
''', 'None given for a number or text', 'the element is left out instead of refused')

P('c07-list-mixed', 'C07', [(C, '''                for v in data:
                    # Items may be name/value tuples, or data themselves
                    stream.write(cls.encodePayload([v] if _isPair(v) else v))
''', '''                for v in data:
                    # Items may be name/value tuples, or data themselves
                    if isinstance(v, dict) and not v:
                        break
                    stream.write(cls.encodePayload([v] if _isPair(v) else v))
''')], '''
s = schema()
assert s.encodes([{}, {"T": "x"}]) == el(0xBA, b"x")
''', 'an empty dictionary before others in a list', 'the data after it are lost')

P('c08-infinite-fixed', 'C08', [(C, '''        if infinite:
            # 'Unknown' size''', '''        if infinite and length is None:
            # 'Unknown' size''')], '''
s = schema()
b = s["M"].encode({"U": 1}, length=3, infinite=True)
assert b[1] == 0xFF, b
''', 'unknown size together with an explicit payload length', 'the size is written')

P('c08-master-length', 'C08', [(C, '''        if isinstance(data, (list, tuple)) and data and all(map(_isPair, data)):
            # Name/value pairs: the contents of one element.
            return cls._encodeElement(data, cls.length if length is None else length,
                                      lengthSize, infinite)
''', '''        if isinstance(data, (list, tuple)) and data and all(map(_isPair, data)):
            # Name/value pairs: the contents of one element.
            return cls._encodeElement(data, length,
                                      lengthSize, infinite)
''')], '''
x = XML.replace('<MasterElement name="One" id="0xBB">', '<MasterElement name="One" id="0xBB" length="3">')
s = schema("c08ml", x)
assert s["One"].encode([("N", 1)]) == b"\\xbb\\x83\\xbc\\x81\\1"
assert raises(ValueError, s["One"].encode, [("N", 1000)])
''', 'a container of fixed length given as pairs', 'the fixed length is not honoured')

P('c09-len-after-clear', 'C09', [(C, '''            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
''', '''            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
                self._length = cleared - 1
            self._value = None
''')], '''
s = schema()
m = s.loads(el(0xA0, el(0xB3, b"abc") + el(0xB0, b"\\1")))[0]
m.value
assert m.gc(recurse=True) == 2
assert len(m) == 2
''', 'the length of a container after clearing recursively', 'the length counts the values cleared')

P('c09-raw-restores', 'C09', [(C, '''        size = self.size  # Note: finding an 'infinite' element's size seeks
        self.stream.seek(self.offset)
        return self.stream.read(size + (self.payloadOffset - self.offset))
''', '''        size = self.size  # Note: finding an 'infinite' element's size seeks
        if self.stream.tell() != self.offset + 1:
            self.stream.seek(self.offset)
        return self.stream.read(size + (self.payloadOffset - self.offset))
''')], '''
s = schema()
d = s.loads(el(0xBA, b"hello") + el(0xBA, b"world"))
e = d[0]
d.stream.seek(1)
assert e.getRaw() == el(0xBA, b"hello")
''', 'the stream is one byte after the start of the element', 'the raw bytes are shifted')

P('c10-inf-strict', 'C10', [(C, '''            self._size = end - self.payloadOffset
            self._length = numChildren
''', '''            self.stream.seek(0, os.SEEK_END)
            if end > self.stream.tell():
                raise IOError("Element of unknown size is incomplete")
            self._size = end - self.payloadOffset
            self._length = numChildren
''')], '''
s = schema()
d = s.loads((b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0xB3, b"hello"))[:-2])
it = iter(d)
m = next(it)
assert next(iter(m)).value == 1
''', 'a container of unknown size whose last child is cut off', 'nothing of it can be read')

P('c10-text-cut', 'C10', [(C, '''        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''', '''        if self._value is None and payloadEnd - pos > 64:
            # Don't start what can't be finished
            self.stream.seek(payloadEnd - 1)
            if not self.stream.read(1):
                payloadEnd = self.stream.tell() - 1

        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB3, b"x" * 70) + el(0xB3, b"y" * 8))[:-4])
assert [e.value[:1] for e in d[0]] == ["x", "y"]
d = s.loads(el(0xA0, el(0xB3, b"x" * 70) + el(0xB3, b"y" * 8))[:75])
assert [e.value[:1] for e in d[0]] == ["x"]
d = s.loads(el(0xA0, el(0xB3, b"x" * 70) + el(0xB3, b"y" * 8) + el(0xB3, b"") * 20)[:100])
assert len(list(d[0])) > 5 and s.loads(el(0xA0, el(0xB3, b"x" * 70) + el(0xB0, b"\\7") * 20)[:90])[0].stream
n = len(list(d[0]))
''', 'a larger container cut off', 'children are lost')

P('c11-short-id', 'C11', [(D, '''    if length > 1:
        eid = _struct_uint32_unpack((ch + stream.read(length-1)
                                     ).rjust(4, b'\\x00'))[0]
    return eid, length
''', '''    if length > 1:
        rest = stream.read(length-1)
        eid = _struct_uint32_unpack((ch + rest).rjust(4, b'\\x00'))[0]
        if rest and not any(rest):
            length = len(rest) if len(rest) == length else length - 0
            eid = ord(ch)
    return eid, length
''')], '''
s = schema()
e = s.loads(b"\\x42\\x00\\x81a")[0]
assert e.id == 0x4200, hex(e.id)
''', 'an unknown ID whose later bytes are all zero', 'the ID is reported as its first byte')

P('c11-size-zero-stuck', 'C11', [(C, '''        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''', '''        while pos + 1 < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB0, b"\\1") + b"\\x01") + el(0xBA, b"x"))
assert raises(Exception, list, d[0])
''', 'a single stray byte at the end of a container', 'it is passed over without an error')

P('c12-xml-size', 'C12', [(U, '''    if sizes:
        xmlEl.set('size', str(el.size))
''', '''    if sizes:
        try:
            xmlEl.set('size', str(el.size))
        except OSError:
            sizes = False
''')], '''
s = schema()
class F(BytesIO):
    left = None
    def read(self, *a):
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                raise OSError("x")
        return BytesIO.read(self, *a)
data = b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0xB3, b"ab") + el(0xBA, b"x")
for n in range(1, 100):
    f = F(data)
    d = s.load(f, headers=True)
    f.left = n
    try:
        util.toXml(d)
    except OSError:
        continue
    assert f.left > 0, n
    break
''', 'an error while the size of a container of unknown size is found', 'the conversion goes on without sizes')

P('c12-close-swallow', 'C12', [(U, '''    if openedEbml:
        ebmlFile.close()

    return numBytes
''', '''    if openedEbml:
        try:
            ebmlFile.close()
        except OSError:
            pass

    return numBytes
''')], '''
assert raises(OSError, util.xml2ebml, ET.fromstring('<T value="abc"/>'), "/dev/full", schema(), headers=False)
''', 'an error that comes only when the file is closed', 'it is swallowed')

P('c13-date-micro', 'C13', [(U, '''    elif not isinstance(el, core.VoidElement):
        xmlEl.set('value', str(el.value))
''', '''    elif isinstance(el, core.DateElement) and el.value.year >= 2001 and not el.value.hour:
        xmlEl.set('value', el.value.isoformat(timespec='milliseconds' if el.value.microsecond % 1000 == 999 else 'auto'))
    elif not isinstance(el, core.VoidElement):
        xmlEl.set('value', str(el.value))
''')], '''
import datetime
s = schema()
v = datetime.datetime(2020, 1, 2, 0, 3, 4, 999)
f = BytesIO()
util.xml2ebml(util.toXml(s.loads(s.encodes({"M": {"D": v}}))), f, s, headers=False)
assert s.loads(f.getvalue())[0][0].value == v
''', 'a date in the first hour of a day with 999 microseconds', 'the microseconds are lost')

P('c13-size-width', 'C13', [(U, '''            s = xmlEl.get('size', None)
            if s is not None:
                sl = encoding.getLength(int(s))
            else:
                sl = 4
''', '''            s = xmlEl.get('size', None)
            if s is not None:
                sl = encoding.getLength(int(s))
            else:
                sl = 4
            if len(xmlEl) and xmlEl[-1].tag == 'Void' and len(xmlEl) > 2 and schema.get('Void') and schema['Void'].multiple:
                xmlEl = xmlEl[:-1] if int(xmlEl[-1].get('size', 1)) == 0 else xmlEl
''')], '''
s = schema()
data = el(0xA0, el(0xB0, b"\\1") + el(0xB0, b"\\1") + el(0xEC, b""), 4)
f = BytesIO()
util.xml2ebml(util.toXml(s.loads(data)), f, s, headers=False)
assert [c.name for c in s.loads(f.getvalue())[0]] == ["U", "U", "Void"]
''', 'an empty Void at the end of a container', 'it is left out')

P('c14-comment-tail', 'C14', [(U, '''    if not isinstance(xmlEl.tag, (str, bytes, bytearray)):
        # (Probably) a comment; disregard.
        return 0
''', '''    if not isinstance(xmlEl.tag, (str, bytes, bytearray)):
        # (Probably) a comment; disregard.
        return len(ebmlFile.getbuffer()) if isinstance(ebmlFile, BytesIO) and xmlEl.tag is ET.PI else 0
''')], '''
s = schema()
root = ET.Element(s.document.__name__)
root.append(ET.ProcessingInstruction("x", "y"))
root.append(ET.Element("T", value="abc"))
root.append(ET.ProcessingInstruction("x", "y"))
f = BytesIO()
assert util.xml2ebml(root, f, s, headers=False) == len(f.getvalue())
''', 'a processing instruction after an element', 'the count is wrong')

P('c14-width-child', 'C14', [(U, '''        sl = int(xmlEl.get('sizeLength', sizeLength))

''', '''        sl = int(xmlEl.get('sizeLength') or max(sizeLength, encoding.getLength(int(xmlEl.get('size', 0)))))

''')], '''
f = BytesIO()
util.xml2ebml(ET.fromstring('<M size="100000"><U value="1"/></M>'), f, schema(), sizeLength=2, headers=False)
assert f.getvalue() == el(0xA0, el(0xB0, b"\\1"), 2), f.getvalue()
''', 'a requested width below that of the size in the XML', 'a wider descriptor is written')

P('c15-falsy-stream', 'C15', [(X, '''        if self.cols == 76:
            # Default width of a base64 line; use existing newlines
            result = "\\n" + result
            if indent:
                result = result.replace('\\n', '\\n' + indent)
            if stream is not None:
                return out.write(result)
            return result
''', '''        if self.cols == 76:
            # Default width of a base64 line; use existing newlines
            result = "\\n" + result
            if indent:
                result = result.replace('\\n', '\\n' + indent)
            if stream:
                return out.write(result)
            return result
''')], '''
class F(StringIO):
    def __len__(self):
        return len(self.getvalue())
f = F()
n = xml_codecs.Base64Codec().encode(b"abc", stream=f)
assert n == len(f.getvalue()) > 0
''', 'a stream that has a length and is empty', 'the text is returned and not written')

P('c15-hex-upper', 'C15', [(X, '''            if b'[' in word or b']' in word:
                continue
            for i''', '''            if b'[' in word or b']' in word:
                continue
            if len(word) > 8 and word.isdigit() and numbytes and not numbytes % 16:
                continue
            for i''')], '''
c = xml_codecs.HexCodec(width=16, cols=0)
data = bytes(16) + bytes(range(16)) + b"\\x11" * 16
assert c.decode(c.encode(data)) == data
''', 'wide words made of decimal digits only', 'they are taken for labels')

P('c16-umask', 'C16', [(U, '''        ebmlFile = tempfile.mktemp() if ebmlFile is None else ebmlFile
        xml2ebml(xmlFile, ebmlFile, schema)
''', '''        if ebmlFile is None:
            import os
            os.umask(0o077)
            ebmlFile = tempfile.mktemp()
        xml2ebml(xmlFile, ebmlFile, schema)
''')], '''
os.umask(0o022)
d = util.loadXml(ET.fromstring('<T value="abc"/>'), schema())
d.close()
os.unlink(d.filename)
assert os.umask(0o022) == 0o022
''', 'an XML loaded into a temporary file', "the process's umask is changed")

P('c16-default-converted', 'C16', [(C, '''        try:
            return dtype(self.elementInfo[eid]['default'])
        except (KeyError, ValueError):
            return None
''', '''        try:
            v = self.elementInfo[eid]['default']
            if not isinstance(v, dtype):
                v = self.elementInfo[eid]['default'] = dtype(v)
            return v
        except (KeyError, ValueError):
            return None
''')], '''
a = schema("c16da")
b = schema("c16db")
a.encodes({"T": "x"}, headers=True)
assert a == b
''', 'encoding with headers', 'the schema is changed: it is no longer equal to another of the same text')

P('c16-locale-warnings', 'C16', [(D, '''    except UnicodeDecodeError as ex:
        warnings.warn(str(ex), UnicodeWarning)
        return str(value, 'ascii', 'replace')
''', '''    except UnicodeDecodeError as ex:
        warnings.warn(str(ex), UnicodeWarning)
        _struct_uint32.last = str(ex) if False else None
        return str(value, 'ascii', 'replace')
''' .replace("        _struct_uint32.last = str(ex) if False else None\n", "        warnings.simplefilter('ignore', UnicodeWarning)\n"))], '''
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    s = schema()
    s.loads(el(0xA0, el(0xB3, b"\\xff\\xfe")))[0][0].value
    s.loads(el(0xA0, el(0xB3, b"\\xff\\xfd")))[0][0].value
    assert len(w) == 2, len(w)
''', 'a second text with a byte that is not ASCII', 'the second warning is not given')

P('c17-encoding-declared', 'C17', [(C, '''        # Parse, using the correct method for the schema format.
        schema = ET.parse(source)
''', '''        # Parse, using the correct method for the schema format.
        schema = ET.parse(source, ET.XMLParser(encoding='utf-8') if 'b' in getattr(source, 'mode', '') else None)
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.xml", "w", encoding="iso-8859-1").write('<?xml version="1.0" encoding="iso-8859-1"?><Schema><UIntegerElement name="\\xc4pfel" id="0x81"/></Schema>')
    assert "\\xc4pfel" in core.loadSchema(t + "/a.xml")
''', 'a schema file in ISO-8859-1', 'the names are wrong or it cannot be loaded')

P('c17-precache-explicit', 'C17', [(C, '''            precache = _getBool(attribs, 'precache', baseClass.precache)
''', '''            precache = _getBool(attribs, 'precache', baseClass.precache) or (multiple and baseClass.precache)
''')], '''
s = core.parseSchema('<Schema><UIntegerElement name="U" id="0x81" multiple="1" precache="0"/></Schema>', name="c17pe")
assert s["U"].precache is False
''', 'a repeatable number that is not to be pre-read', 'it is pre-read')

P('c17-length-hex', 'C17', [(C, '''                return int(literal_eval(d[k].strip()))
''', '''                return int(d[k].strip())
''')], '''
s = core.parseSchema('<Schema><UIntegerElement name="U" id="0x81" length="0x4"/></Schema>', name="c17lh")
assert s["U"].length == 4
''', 'a length in hexadecimal', 'it is ignored')

P('c18-search-cache', 'C18', [(C, '''    filename = _expandSchemaPath(filename)  # raises ModuleNotFoundError

    if not''', '''    if not reload and cached is not None and os.path.basename(cached.filename) == origName and Path(cached.filename).is_file() and paths is SCHEMA_PATH:
        return cached

    filename = _expandSchemaPath(filename)  # raises ModuleNotFoundError

    if not''')], '''
with tempfile.TemporaryDirectory() as t:
    for n in "ab":
        os.mkdir(t + "/" + n)
        open(t + "/" + n + "/c18sc.xml", "w").write(XML)
    core.SCHEMA_PATH.append(t + "/a")
    a = core.loadSchema("c18sc.xml")
    core.SCHEMA_PATH.insert(1, t + "/b")
    b = core.loadSchema("c18sc.xml")
    assert b is not a and os.path.realpath(t + "/b/c18sc.xml") == b.filename
''', 'the search path changes between two loads by name', 'the schema found first is returned')

P('c18-reload-object', 'C18', [(C, '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
''', '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    for k in [k for k, v in SCHEMATA.items() if v == schema and v.filename == schema.filename]:
        SCHEMATA[k] = schema
    SCHEMATA.setdefault(str(filename), schema)
    SCHEMATA.setdefault(origName, schema)
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.xml", "w").write(XML)
    core.loadSchema(t + "/a.xml")
    open(t + "/a.xml", "w").write(XML.replace('"One"', '"Two"'))
    b = core.loadSchema(t + "/a.xml", reload=True)
    assert core.loadSchema(t + "/a.xml") is b
''', 'a reload after the file was changed', 'later loads return the old schema')

P('c19-env-empty', 'C19', [(C, '''SCHEMA_PATH.extend(p for p in os.environ.get('EBMLITE_SCHEMA_PATH', '').split(os.path.pathsep)
                   if p not in SCHEMA_PATH)
''', '''SCHEMA_PATH.extend(p for p in re.split('[:;,]' if os.path.pathsep == ':' else ';', os.environ.get('EBMLITE_SCHEMA_PATH', ''))
                   if p not in SCHEMA_PATH)
''')], '''
import subprocess
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/a,b")
    r = subprocess.run([sys.executable, "-c", "from ebmlite import core; print(core.SCHEMA_PATH[-1])"], env=dict(os.environ, EBMLITE_SCHEMA_PATH=t + "/a,b"), stdout=subprocess.PIPE, text=True)
    assert r.stdout.strip() == t + "/a,b", r.stdout
''', 'a directory in the environment variable with a comma or semicolon in its name', 'it is split')

P('c19-list-directory', 'C19', [(C, '''        if not fullpath.is_dir():
            continue

''', '''        if not fullpath.is_dir() or fullpath.name.startswith('.'):
            continue

''')], '''
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/.schemata")
    open(t + "/.schemata/a.xml", "w").write(XML)
    assert core.listSchemata(t + "/.schemata")
''', 'a directory whose name starts with a dot', 'it is not listed')

P('c20-type-default', 'C20', [(C, '''        return self.info.get('DocType')

''', '''        return self.info.get('DocType', self.schema.type)

''')], '''
s = schema()
assert s.loads(el(0x1A45DFA3, el(0x4286, b"\\1"))).type is None
''', 'a header without a type', "the schema's is reported")

P('c20-bool-index', 'C20', [(C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
''', '''            n = None
            for n, el in enumerate(self, int(self.payloadOffset > 0 and self.stream.tell() == 0 and not self.info)):
                if n == idx:
                    return el
''')], '''
s = schema()
f = BytesIO(b"??" + el(0xBA, b"a") + el(0xBA, b"b"))
f.seek(2)
d = s.load(f)
f.seek(0)
assert d[0].value == "a"
''', 'a document that starts later in its stream, without header, and the stream at its beginning', 'the index is off by one')

P('c21-closed-flag', 'C21', [(T, '''        fp = self._getThreadStream()
        if fp is not None:
            fp.close()
        self.cleanup()
''', '''        fp = self._getThreadStream()
        if fp is not None:
            fp.close()
        if not any(not v.closed for v in self.threads.values()):
            self.threads.clear()
        self.cleanup()
''')], '''
import time
# another thread opens its stream between the check and the clearing
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"0123456789")
    f = threaded_file.ThreadAwareFile(t + "/a", "rb")
    class D(dict):
        def clear(self):
            done = threading.Event()
            def run():
                res.append(f.read(3))
                done.set()
                go.wait(5)
                res.append(f.read(3))
            threading.Thread(target=run).start()
            done.wait(5)
            dict.clear(self)
    res, go = [], threading.Event()
    f.threads = D(f.threads)
    f.close()
    go.set()
    for i in range(100):
        time.sleep(0.02)
        if len(res) > 1:
            break
    assert res in ([], [b"012", b"345"]), res
''', 'a thread opening its stream while the last other one closes', 'its position is lost')

P('c22-readinto-count', 'C22', [(T, '''        return self.getThreadStream().readinto(*args, **kwargs)
''', '''        buf = args[0]
        data = self.getThreadStream().read(len(buf))
        memoryview(buf).cast('B')[:len(data)] = data
        return len(data)
''')], '''
import array
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"0123456789")
    f = threaded_file.ThreadAwareFile(t + "/a", "rb")
    a = array.array("H", [0, 0])
    assert f.readinto(a) == 4
''', 'reading into an array of items of several bytes', 'too little is read')

P('c22-name-changed', 'C22', [(T, '''            # First access from this thread. Open the file.
            fp = io.FileIO(*self.initArgs, **self.initKwargs)
''', '''            # First access from this thread. Open the file.
            path = self.initArgs[0]
            if isinstance(path, str) and self.threads:
                path = next(iter(self.threads.values())).name
            fp = io.FileIO(path, *self.initArgs[1:], **self.initKwargs)
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"0123456789")
    f = threaded_file.ThreadAwareFile(file=t + "/a", mode="rb") if False else threaded_file.ThreadAwareFile(t + "/a", "rb")
    k = threaded_file.ThreadAwareFile.__new__(threaded_file.ThreadAwareFile)
    try:
        k.__init__(file=t + "/a", mode="rb")
    except TypeError as err:
        sys.exit(1)
    assert k.read(2) == b"01"
''', 'the name given as a keyword', 'the file cannot be opened')

P('c24-print-size', 'C24', [(U, '''        out.write("%06s %06s %s %s (ID 0x%0X)" % (el.offset, el.size, tab, el.name, el.id))
''', '''        out.write("%06s %06s %s %s (ID 0x%02X)" % (el.offset - el.offset // 1000000 * 1000000 if el.offset > 9999999 else el.offset, el.size, tab, el.name, el.id))
''')], '''
s = schema()
data = el(0xB6, bytes(10000000)) + el(0xBA, b"x")
out = StringIO()
util.pprint(s.loads(data), out=out)
assert "10000005" in out.getvalue(), out.getvalue()
''', 'an element ten million bytes into the file', 'its offset is printed shortened')

P('c24-dump-name', 'C24', [(C, '''            if el.multiple:
                result.setdefault(el.name, []).append(el.dump())
            else:
                result[el.name] = el.dump()
''', '''            if el.multiple or el.name in result:
                prev = result.setdefault(el.name, [])
                if not isinstance(prev, list):
                    prev = result[el.name] = [prev]
                prev.append(el.dump())
            else:
                result[el.name] = el.dump()
''')], '''
s = schema()
d = s.loads(el(0xBB, el(0xBC, b"\\1") + el(0xBC, b"\\2")))
assert d[0].dump() == {"N": 2}
''', 'an element that may occur once, occurring twice', 'the dump groups it in a list')

P('c25-void-content', 'C25', [(C, '''            elif isinstance(el, UnknownElement):
                raise NameError''', '''            elif isinstance(el, VoidElement):
                if el.getRawValue().strip(b"\\x00\\xff"):
                    raise ValueError("Verification failed, contents of Void")
            elif isinstance(el, UnknownElement):
                raise NameError''')], '''
s = schema()
assert s.verify(el(0xEC, b"old data"))
''', 'a Void holding something', 'the document is refused')

P('c26-stdout-partial', 'C26', [(TU, '''    output = os.path.realpath(os.path.expanduser(args.output))
    if os.path.exists(output) and not args.clobber:
        errPrint''', '''    output = os.path.realpath(os.path.expanduser(args.output))
    if os.path.exists(output) and os.path.getsize(output) and not args.clobber:
        errPrint''')], '''
import subprocess
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.ebml", "wb").write(el(0x1A45DFA3, el(0x4282, b"x")))
    open(t + "/out.xml", "w").close()
    r = subprocess.run([sys.executable, "-m", "ebmlite.tools.ebml2xml", t + "/a.ebml", "matroska", "-o", t + "/out.xml"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    assert r.returncode != 0 and os.path.getsize(t + "/out.xml") == 0, r
''', 'an existing output file that is empty', 'it is overwritten')

P('c27-date-naive', 'C27', [(C, '''        return self.value == other.value

    def parse(self, stream: BinaryIO, size: int) -> int:
        """ Type-specific helper function for parsing the element's payload.
            It is assumed the file pointer is at the start of the payload.
        """
        return readInt''', '''        if self.size == 8 and self._value is None and other._value is None:
            return True
        return self.value == other.value

    def parse(self, stream: BinaryIO, size: int) -> int:
        """ Type-specific helper function for parsing the element's payload.
            It is assumed the file pointer is at the start of the payload.
        """
        return readInt''')], '''
s = schema()
a = s.loads(el(0xA0, el(0xB0, bytes(7) + b"\\1")))[0][0]
b = s.loads(el(0xA0, el(0xB0, bytes(7) + b"\\2")))[0][0]
a.gc(), b.gc()
assert not a == b
''', 'numbers of eight bytes whose values were dropped', 'different ones are equal')

P('c27-unknown-known', 'C27', [(C, '''            return (self.name == other.name
                    and self.id == other.id
                    and self.value == other.value)
''', '''            return (isinstance(other, BinaryElement)
                    and self.id == other.id
                    and self.value == other.value)
''')], '''
s = schema()
t = core.parseSchema('<Schema><UIntegerElement name="Q" id="0x81"/></Schema>', name="c27uk")
a = t.loads(el(0xB6, b"x"))[0]
b = s.loads(el(0xA0, el(0xB6, b"x")))[0][0]
assert not a == b and not b == a
''', 'an unknown and a known element of the same ID', 'one is equal to the other')

P('c28-orig-name', 'C28', [(C, '''    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    return schema
''', '''    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    return SCHEMATA[origName]
''')], '''
class D(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        if k == "a.xml" and v.filename.startswith(os.path.realpath(t1)):
            # another thread loads the other file of the same name now
            th = threading.Thread(target=lambda: core.loadSchema("a.xml", paths=[t2]))
            th.start()
            th.join()
with tempfile.TemporaryDirectory() as t1, tempfile.TemporaryDirectory() as t2:
    open(t1 + "/a.xml", "w").write(XML)
    open(t2 + "/a.xml", "w").write(XML.replace('"One"', '"Two"'))
    core.SCHEMATA = D(core.SCHEMATA)
    assert "One" in core.loadSchema("a.xml", paths=[t1])
''', 'two threads loading files of the same name from different search paths', 'one gets the schema of the other')

P('c29-first-dump', 'C29', [(C, '''            el, pos = self.parseElement(self.stream)
            if el.name == "EBML":
                # Load 'header' info from the file
                self.info = el.dump()
                if not headers:
                    self.payloadOffset = pos
''', '''            el, pos = self.parseElement(self.stream)
            info = el.dump()
            if el.name == "EBML":
                # Load 'header' info from the file
                self.info = info
                if not headers:
                    self.payloadOffset = pos
''')], '''
reads = []
class F(BytesIO):
    def read(self, n=-1):
        reads.append((self.tell(), n))
        return BytesIO.read(self, n)
s = schema()
s.load(F(el(0xBA, b"x" * 1000)))
assert max(n for p, n in reads) < 100, reads
''', 'a document without header whose first element is large', 'its payload is read when the document is loaded')

P('c30-flat-own', 'C30', [(U, '''        if abs(d) > 0 and isinstance(el, core.MasterElement):
            for ch in el:
                for grandchild''', '''        if abs(d) > 0 and el.dtype is list:
            for ch in el:
                for grandchild''')], '''
class Own(core.BinaryElement):
    __slots__ = ()
    dtype = list
    def parse(self, stream, size):
        return list(stream.read(size))
s = schema("c30fo")
s.addElement(0x4FFE, "Own", Own, {"name": "Own", "id": "0x4FFE"})
assert [e.name for e in util.flatiter(s.loads(el(0x4FFE, b"\\1\\2")))] == ["Own"]
''', 'an own element type whose values are lists', 'flat iteration fails on it')

P('c30-attrib-types', 'C30', [(C, '''                return str(d[k]).strip()[0] in 'Tt1'
''', '''                return d[k].strip()[0] in 'Tt1'
'''), (C, '''            except (KeyError, TypeError, IndexError, ValueError):
                # TODO: Don't fail silently for some exceptions.
                pass
            return default

        def _getInt''', '''            except (KeyError, TypeError, IndexError, ValueError, AttributeError):
                # TODO: Don't fail silently for some exceptions.
                pass
            return default

        def _getInt''')], '''
s = schema("c30at")
c = s.addElement(0x4FFE, "Own", core.UIntegerElement, {"name": "Own", "id": "0x4FFE", "multiple": True})
assert c.multiple is True
''', 'an attribute given to addElement() as a Boolean', 'it is ignored')

P('c31-parent-ref', 'C31', [(C, '''        if el.precache and not nocache:
            # Read the value now, avoiding a seek later.
            el._value = el.parse(stream, el.size)

        return''', '''        if el.precache and not nocache:
            # Read the value now, avoiding a seek later.
            el._value = el.parse(stream, el.size)
            if type(stream) is BytesIO and el.size == 8:
                stream.last = [el, getattr(stream, 'last', None)]

        return''')], '''
import gc, weakref
s = schema()
d = s.loads(el(0xA0, el(0xB0, bytes(8)) * 100))
n = sum(1 for o in gc.get_objects() if isinstance(o, core.Element))
for e in d[0]:
    pass
gc.collect()
assert sum(1 for o in gc.get_objects() if isinstance(o, core.Element)) < n + 20
''', 'numbers of eight bytes in a document in memory', 'they are chained to the stream')

P('c32-verify-state', 'C32', [(C, '''            elif isinstance(el, UnknownElement):
                raise NameError("Verification failed, unknown element ID %x" %
                                el.id)
''', '''            elif isinstance(el, UnknownElement):
                self._failed = el.id
                raise NameError("Verification failed, unknown element ID %x" %
                                self._failed)
''')], '''
# the other thread runs between the two statements
s = schema()
class S(type(s)):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if k == "_failed" and threading.current_thread() is threading.main_thread():
            def run():
                try:
                    self.verify(el(0x4FFD, b""))
                except NameError:
                    pass
            th = threading.Thread(target=run)
            th.start()
            th.join()
s.__class__ = S
try:
    s.verify(el(0x4FFE, b""))
except NameError as err:
    assert "4ffe" in str(err), err
''', 'two threads verifying documents with different unknown elements', 'the error names the other one')

P('c32-catch-warnings', 'C32', [(N, '''        fval, val = val, int(val)
        if fval != val:
            warnings.warn('encodeUInt: float value {} encoded as {}'.format(fval, val))
''', '''        global _fval
        _fval, val = val, int(val)
        if _fval != val:
            warnings.warn('encodeUInt: float value {} encoded as {}'.format(_fval, val))
            val = int(_fval)
''')], '''
import builtins
done = []
def warn(msg, *a, **k):
    if not done:
        done.append(1)
        th = threading.Thread(target=lambda: encoding.encodeUInt(200.0))
        th.start()
        th.join()
warnings.warn = warn
assert encoding.encodeUInt(5.5) == b"\\5"
''', 'two threads encoding numbers given as floats', 'one writes the number of the other')
