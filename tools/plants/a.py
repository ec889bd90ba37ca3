C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


P('c01-sixbyte-limit', 'C01', [(N, 'elif val <= 4398046511102:', 'elif val <= 4398046511103:')], '''
v = 2**42 - 1
e = encoding.encodeSize(v)
assert decoding.readElementSize(BytesIO(e)) == (v, len(e)), e
''', 'the one size 2**42-1', 'the size 2**42-1 is written in 6 bytes, where it means "unknown size"')

P('c01-seven-byte-first-bits', 'C01', [(D, '''        size = _struct_uint64_unpack((chr(size).encode('latin-1') +
''', '''        size = _struct_uint64_unpack(((chr(size).encode('latin-1') if length < 7 else b'') +
''')], '''
v = 2**48 + 5
assert decoding.readElementSize(BytesIO(encoding.encodeSize(v))) == (v, 7)
''', 'a size of 2**48 or more in a 7 byte descriptor', 'the top bit of 7 byte descriptors is lost when reading')

P('c02-exclude-replaces', 'C02', [(U, 'exclude = set(exclude).union(schema.elements.keys())', 'exclude = set(exclude).union(schema.elements if len(schema.elements) > len(exclude) else ())')], '''
s = schema()
r = util.createID(s, "a", exclude=tuple(range(0x81, 0x9f)), minId=0x9f, count=4)
assert not set(r) & set(s.elements), r
''', 'an exclude list at least as long as the schema', 'IDs already used by the schema are generated')

P('c02-cached-range', 'C02', [(U, '''    idrange = (max(ranges[idc][0], minId),
               min(ranges[idc][1], maxId))
''', '''    idrange = (max(ranges[idc][0], minId),
               min(ranges[idc][1], max(maxId, minId + count)))
''')], '''
s = schema()
assert util.createID(s, "a", minId=0x90, maxId=0x92, count=10) == [0x90, 0x91, 0x92]
''', 'more IDs requested than lie between minId and maxId', 'generated IDs exceed the requested upper bound')

P('c03-negative-short-pad', 'C03', [(N, '''            if not packed[0] & 0b10000000:
                packed = pad + packed
''', '''            if not packed[0] & 0b10000000 and len(packed) < 4:
                packed = pad + packed
''')], '''
v = -2**31 - 5
e = encoding.encodeInt(v)
assert decoding.readInt(BytesIO(e), len(e)) == v
''', 'a negative integer below -2**31 whose shortest form needs an extra sign byte', 'large negative integers read back positive')

P('c03-date-seconds', 'C03', [(N, '''    nanoseconds = (delta.microseconds +
                   ((delta.seconds + (delta.days * 86400)) * 1000000)) * 1000
''', '''    nanoseconds = int(delta.total_seconds() * 1000000) * 1000
''')], '''
from datetime import datetime, timedelta
for us in (999999, 7, 123457):
    for y in (1850, 1999, 2023, 2290):
        d = datetime(y, 5, 6, 7, 8, 9, us)
        e = encoding.encodeDate(d)
        assert decoding.readDate(BytesIO(e), 8) == d, d
''', 'a date whose microseconds are not exact in a float', 'dates lose a microsecond')

P('c03-float-size-zero', 'C03', [(N, "        if val is None or val == 0.0:\n", "        if val is None or abs(val) < 5e-324 * 2**52:\n")], '''
e = encoding.encodeFloat(1e-310)
assert decoding.readFloat(BytesIO(e), len(e)) == 1e-310
''', 'a denormal float at natural width', 'denormal floats are written as zero')

P('c04-string-length-zero', 'C04', [(N, '''    if length is not None:
        val = val[:length]

    return encodeBinary(val.translate''', '''    if length:
        val = val[:length]

    return encodeBinary(val.translate''')], '''
assert encoding.encodeString("abc", 0) == b""
''', 'an explicit length of 0', 'text cut to length 0 is refused')

P('c04-unicode-rstrip', 'C04', [(D, "    data = data.partition(b'\\x00')[0]\n", "    data = data.rstrip(b'\\x00')\n")], '''
assert decoding.readUnicode(BytesIO(b"ab\\x00cd"), 5) == "ab"
''', 'a NUL in the middle of a UTF-8 payload', 'UTF-8 text does not end at its first NUL')

P('c04-translate-after-cut', 'C04', [(N, "STRING_CHARACTERS = (b\"?\"*32 + bytearray(range(32, 127)))", "STRING_CHARACTERS = (b\"?\"*32 + bytearray(range(32, 126)))")], '''
assert encoding.encodeString("a~b") == b"a~b"
''', 'the character ~', 'a printable ASCII character is replaced')

P('c05-size-32bit', 'C05', [(D, '''        size = _struct_uint64_unpack((chr(size)''', '''        size = (_struct_uint32_unpack(stream.read(4)) if length == 5 else _struct_uint64_unpack((chr(size)'''), (D, '''                                       stream.read(length - 1)
                                      ).rjust(8, b'\\x00'))[0]
''' if False else '''                                      stream.read(length - 1)
                                      ).rjust(8, b'\\x00'))[0]
''', '''                                      stream.read(length - 1)
                                      ).rjust(8, b'\\x00')))[0]
''')], '''
assert decoding.readElementSize(BytesIO(b"\\x0a\\x00\\x00\\x00\\x01")) == ((2 << 32) + 1, 5)
''', 'an element larger than 4 GiB with a 5 byte descriptor', 'sizes of 4 GiB and more are read modulo 2**32')

P('c05-unknown-class-state', 'C05', [(C, '''        super(UnknownElement, self).__init__(stream, offset, size,
                                             payloadOffset)
''', '''        super(UnknownElement, self).__init__(stream, offset, size,
                                             min(payloadOffset, offset + 8))
''')], '''
s = schema()
d = s.loads(el(0x1F000001, b"abcd", 8) + el(0xBA, b"x"))
e = list(d)
assert bytes(e[0].value) == b"abcd", e[0].value
''', 'an unknown element with a 4 byte ID and a descriptor of 5 or more bytes', 'its value is read from the wrong place')

P('c05-start-position', 'C05', [(C, "        self.offset = self.payloadOffset = self.stream.tell()\n", "        self.offset = self.payloadOffset = 0 if isinstance(stream, BytesIO) else self.stream.tell()\n")], '''
s = schema()
b = BytesIO(b"\\x00garbage" + el(0xBA, b"hi"))
b.seek(8)
d = s.load(b)
assert [e.value for e in d] == ["hi"]
''', 'a document starting inside an in-memory stream', 'reading starts at the beginning of the stream')

P('c06-end-of-unknown', 'C06', [(C, '''                    # Will occur at end of file; message will contain "ord()".
                    if "ord()" in str(err):
                        break
''', '''                    # Will occur at end of file; message will contain "ord()".
                    if "ord()" in str(err):
                        end = self.stream.tell()
                        break
''')], '''
s = schema()
b = encoding.encodeId(0xA0) + b"\\xff" + el(0xB0, b"\\x05")[:-1] + b""
b = encoding.encodeId(0xA0) + b"\\xff" + el(0xB6, b"12345")[:-2]
m = s.loads(b)[0]
f = BytesIO(b)
d = s.load(f)
m = d[0]
assert m.size == len(b) - 2 + 2, (m.size, len(b))
''', 'x', 'y')

P('c06-root-children', 'C06', [(C, "        return elId in cls.schema.globals\n", "        return elId in cls.schema.globals or (elId in cls.schema.children and elId in cls.schema['EBML'].children) if cls.children else True\n")], '''
xml = """<Schema><MasterElement name="E" id="0xA0"/><UIntegerElement name="U" id="0xB0"/></Schema>"""
s = core.parseSchema(xml, name="c06a")
d = s.loads(b"\\xa0\\xff" + b"\\xb0\\x81\\x01")
assert [x.name for x in d] == ["E", "U"], [x.name for x in d]
''', 'x', 'y')
PLANTS[:] = [p for p in PLANTS if p['needs'] != 'x']

P('c06-global-nested', 'C06', [(C, '''            if isGlobal:
                self.globals[eid] = eclass

        parent = parent or self
''', '''            if isGlobal and not mandatory:
                self.globals[eid] = eclass

        parent = parent or self
''')], '''
xml = """<Schema><MasterElement name="G" id="0xBF" mandatory="1" global="1"><BinaryElement name="C" id="0xC0"/></MasterElement>
<MasterElement name="M" id="0xA0"><UIntegerElement name="U" id="0xB0"/></MasterElement></Schema>"""
s = core.parseSchema(xml, name="c06b")
d = s.loads(b"\\xa0\\xff\\xb0\\x81\\x01" + b"\\xbf\\x80" + b"\\xb0\\x81\\x02")
assert [x.name for x in d] == ["M"], [x.name for x in d]
''', 'a global element declared mandatory (e.g. a CRC) inside a container of unknown size', 'the container ends at the global element')

P('c06-unknown-nested-size', 'C06', [(C, "            self._size = end - self.payloadOffset\n            self._length = numChildren\n", "            self._size = end - self.payloadOffset\n            self._length = numChildren if self._value is None else len(self._value)\n"), (C, '''        if esize is not None:
            # Only create''', '''        if esize or esize == 0 and not self.children:
            # Only create''')], '''
s = schema()
d = s.loads(b"\\xa0\\x80" + el(0xB0, b"\\x05") + el(0xBA, b"x"))
assert [x.name for x in d] == ["M", "U", "T"], [x.name for x in d]
assert len(d[0]) == 0
''', 'an empty container of explicit size 0 followed by elements it could contain', 'an explicit size of 0 is taken as unknown size')

P('c07-header-default-zero', 'C07', [(C, '''                if v is not None:
                    headers[elName] = v
''', '''                if v:
                    headers[elName] = v
''')], '''
s = schema("c07a")
d = s.loads(s.encodes({"T": "x"}, headers=True))
assert d.info.get("DocTypeVersion") == 0, d.info
''', 'a schema whose header declares a default of 0', 'that default is missing from written headers')

P('c07-pairs-merged', 'C07', [(C, '''        elif isinstance(data, dict):
            data = data.items()
        elif not''', '''        elif isinstance(data, dict):
            data = data.items()
        elif len(data) == 2 and isinstance(data[0], (str, int)):
            data = (data,)
        elif not''')], '''
s = schema("c07b")
''', 'x', 'x')
PLANTS.pop()

P('c07-single-list-allowed', 'C07', [(C, '''        if isinstance(value, (list, tuple)):
            if not cls.multiple:
                raise''', '''        if isinstance(value, (list, tuple)):
            if not cls.multiple and len(value) > 2:
                raise''')], '''
s = schema("c07c")
raises(ValueError, s.encodes, {"M": {"U1": [1, 2]}})
''', 'exactly two values for an element that may occur once', 'two values for a single element are written')

P('c07-empty-dict-in-list', 'C07', [(C, '''            for v in value:
                result.extend(cls.encode(v, length, lengthSize, infinite))
            return result
        return cls._enc''', '''            for v in filter(lambda x: x != {}, value):
                result.extend(cls.encode(v, length, lengthSize, infinite))
            return result
        return cls._enc''')], '''
s = schema("c07d")
d = s.loads(s.encodes({"M": [{"U": 1}, {}, {"U": 2}]}))
assert [len(m) for m in d] == [1, 0, 1]
''', 'an empty dictionary in a list of containers', 'empty containers in a list are left out')

P('c08-list-width', 'C08', [(C, '''            for v in value:
                result.extend(cls.encode(v, length, lengthSize, infinite))
            return result
        return cls._enc''', '''            for v in value:
                result.extend(cls.encode(v, length, infinite=infinite))
            return result
        return cls._enc''')], '''
s = schema("c08a")
assert bytes(s["U"].encode([1, 2], lengthSize=4)) == b"\\xb0\\x10\\x00\\x00\\x01\\x01\\xb0\\x10\\x00\\x00\\x01\\x02"
''', 'a descriptor width given with a list of values', 'the width is ignored')

P('c08-zero-length', 'C08', [(C, "        length = cls.length if length is None else length\n        if isinstance(value, (list, tuple)):", "        length = length or cls.length\n        if isinstance(value, (list, tuple)):")], '''
xml = """<Schema><UnicodeElement name="X" id="0xB4" length="4"/></Schema>"""
s = core.parseSchema(xml, name="c08b")
assert bytes(s["X"].encode("abc", length=0)) == b"\\xb4\\x80"
''', 'a call that overrides a fixed schema length with 0', 'the requested length 0 is ignored')

P('c08-list-of-lists-infinite', 'C08', [(C, '''                result.extend(cls.encode(v, length=length,
                                         lengthSize=lengthSize,
                                         infinite=infinite))
            return result
''', '''                result.extend(cls.encode(v, length=length,
                                         lengthSize=lengthSize,
                                         infinite=infinite and v is data[-1]))
            return result
''')], '''
s = schema("c08c")
b = s["M"].encode([[("U", 1)], [("U", 2)]], infinite=True)
assert bytes(b) == b"\\xa0\\xff\\xb0\\x81\\x01\\xa0\\xff\\xb0\\x81\\x02", b
''', 'several containers encoded as a list of lists with unknown size', 'only the last one gets the unknown size')

P('c09-iter-no-seek', 'C09', [(C, '''        while pos < payloadEnd:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''', '''        el = None
        while pos < payloadEnd:
            if el is None or not el.precache or nocache:
                self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB0, b"\\x01") + el(0xB0, b"\\x02") + el(0xB0, b"\\x03") + el(0xBA, b"zzz")))
m = d[0]
it = iter(m)
a = next(it)
d.stream.seek(0)
assert next(it).value == 2
''', 'the stream moved between two steps of an iterator over pre-read elements', 'the iterator continues from wherever the stream stands')

P('c09-getitem-slice-cache', 'C09', [(C, '''        # TODO: Parse only the requested item(s), like `Document`
        return self.value.__getitem__(*args)
''', '''        # TODO: Parse only the requested item(s), like `Document`
        result = self.value.__getitem__(*args)
        if result is self._value[-1]:
            self._length = len(self._value)
            self._value = self._value[:1] if len(self._value) > 8 else self._value
        return result
''')], '''
s = schema()
m = s.loads(el(0xA0, b"".join(el(0xB0, bytes([i])) for i in range(10))))[0]
assert m[-1].value == 9
assert [e.value for e in m.value] == list(range(10))
''', 'the last child of a container of more than 8 children taken by index, then the value', 'the cached list of children is cut')

P('c11-master-swallows', 'C11', [(C, '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                if "ord()" in str(err):
                    break
                raise
''', '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except (TypeError, OSError) as err:
                if "ord()" in str(err) or "length for ID" in str(err):
                    break
                raise
''')], '''
s = schema()
m = s.loads(el(0xA0, el(0xB0, b"x") + b"\\x01\\x02\\x03\\x04\\x05"))[0]
it = iter(m)
next(it)
raises(OSError, next, it)
''', 'bytes that cannot be an element header inside a container', 'unreadable data looks like the end of the container')

P('c12-partial-length', 'C12', [(C, '''                n = 0  # In case there's nothing to enumerate
                for n, _el in enumerate(self.__iter__(nocache=True), 1):
                    pass
                self._length = n
''', '''                self._length = 0
                for _el in self.__iter__(nocache=True):
                    self._length += 1
''')], '''
class F(BytesIO):
    n = -1
    def read(self, *a):
        F.n -= 1
        if F.n == 0: raise OSError("injected")
        return BytesIO.read(self, *a)
s = schema()
b = el(0xA0, b"".join(el(0xB6, b"a") for i in range(5)))
f = F(b)
m = s.load(f)[0]
F.n = 8
raises(OSError, len, m)
F.n = -1
assert len(m) == 5, len(m)
''', 'a stream error while the length of a container is counted, then asking again', 'a partial length stays cached')

P('c13-void-size', 'C13', [(U, '''        xmlEl.set('size', str(el.size))
        if void_codec.NAME''', '''        if sizes or void_codec.NAME == 'ignore' and el.size < 127:
            xmlEl.set('size', str(el.size))
        if void_codec.NAME''')], '''
s = schema()
b = el(0xA0, el(0xEC, bytes(300)) + el(0xB0, b"\\x07"))
x = util.toXml(s.loads(b), sizes=False)
o = BytesIO()
util.xml2ebml(x, o, s, headers=False)
d = s.loads(o.getvalue())
assert [e.size for e in d[0]] == [300, 1], [e.size for e in d[0]]
''', 'a Void of 127 or more bytes converted without sizes', 'the Void shrinks to nothing')

P('c13-date-text', 'C13', [(U, "    elif not isinstance(el, core.VoidElement):\n", "    elif isinstance(el, core.DateElement):\n        xmlEl.set('value', el.value.isoformat(' ', 'milliseconds'))\n    else:\n")], '''
from datetime import datetime
s = schema()
v = datetime(2020, 1, 2, 3, 4, 5, 678901)
b = s.encodes({"M": {"D": v}})
x = util.toXml(s.loads(b))
o = BytesIO()
util.xml2ebml(x, o, s, headers=False)
assert s.loads(o.getvalue())[0][0].value == v
''', 'a date with microseconds', 'dates lose precision in XML')

P('c14-width-precedence', 'C14', [(U, "        sl = int(xmlEl.get('sizeLength', sizeLength))\n", "        sl = int(sizeLength or xmlEl.get('sizeLength'))\n"), (U, '''    codec = xmlEl.get('encoding', 'base64')

    if sizeLength is None:
        sl = xmlEl.get('sizeLength', None)
''', '''    codec = xmlEl.get('encoding', 'base64')

    if not sizeLength:
        sl = xmlEl.get('sizeLength', None)
''')], '''
s = schema()
o = BytesIO()
util.xml2ebml(ET.fromstring('<M sizeLength="2"><U value="1"/></M>'), o, s, sizeLength=3, headers=False)
assert o.getvalue()[:3] == b"\\xa0\\x40\\x03", o.getvalue()
''', 'a width given both in the call and in an attribute', "the call's width wins")

P('c14-width-from-parent', 'C14', [(U, "                sl = encoding.getLength(int(s))\n", "                sl = encoding.getLength(int(s) + 1)\n")], '''
s = schema()
o = BytesIO()
''', 'x', 'x')
PLANTS.pop()

P('c15-b64-chunks', 'C15', [(X, "        result = base64.encodebytes(data).decode()\n", "        n = (self.cols or 76) * 3 // 4 or 1\n        result = '\\n'.join(base64.b64encode(data[i:i+n]).decode() for i in range(0, len(data), n)) + ('\\n' if data else '')\n")], '''
c = xml_codecs.Base64Codec(cols=10)
d = bytes(range(50))
assert c.decode(c.encode(d)) == d
''', 'a line length that is not a multiple of 4', 'data after the first line is lost on decoding')

P('c15-hex-offset-width', 'C15', [(X, "            if b'[' in word or b']' in word:\n                continue\n", "            if b'[' in word and len(word) == 8:\n                continue\n            word = word.strip(b'[]')\n")], '''
c = xml_codecs.HexCodec()
d = bytes(range(40))
assert c.decode(c.encode(d, offset=999990)) == d
''', 'hex text with offsets of more than 6 digits', 'offset labels are decoded as data')

P('c16-shared-info', 'C16', [(C, "        self.info = {}\n\n        try:", "        try:"), (C, "                self.info = el.dump()\n", "                self.info.update(el.dump())\n"), (C, '''        Loading a `Schema` generates a subclass.
    """

    def __init__(self, ''', '''        Loading a `Schema` generates a subclass.
    """
    info = {}

    def __init__(self, ''')], '''
s = schema("c16a")
a = s.loads(s.encodes({"T": "x"}, headers=True))
b = s.loads(s.encodes({"T": "x"}))
assert b.type is None, b.info
''', 'a document without header loaded after one with a header', "documents report another document's header")

P('c16-paths-modified', 'C16', [(C, "            for p in paths:\n                try:\n", "            while paths:\n                p = paths.pop(0) if paths is not SCHEMA_PATH else None\n                try:\n"), (C, "    paths = paths or SCHEMA_PATH\n    origName = str(filename)\n", "    paths = paths or list(SCHEMA_PATH)\n    origName = str(filename)\n")], '''
p = [tempfile.gettempdir()]
q = list(p)
try:
    core.loadSchema("definitely-not-there.xml", paths=p)
except OSError:
    pass
assert p == q, p
''', 'a list of paths without the current directory', "the caller's list of paths is changed")

P('c17-void-attributes', 'C17', [(C, "                         'mandatory': el.mandatory, 'multiple': el.multiple})\n", "                         'mandatory': el.mandatory})\n")], '''
s = schema("c17a")
assert s["Void"].multiple is True
''', 'Void declared as multiple', 'the multiplicity of Void is lost')

P('c17-octal-length', 'C17', [(C, "                return int(literal_eval(d[k].strip()))\n", "                return int(d[k].strip(), 10)\n")], '''
s = core.parseSchema('<Schema><UIntegerElement name="U" id="0xB0" length="0x4"/></Schema>', name="c17c")
assert s["U"].length == 4
''', 'a length written in hexadecimal', 'the fixed length is ignored')

P('c18-reload-not-kept', 'C18', [(C, "    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema\n", "    SCHEMATA[origName] = schema\n    SCHEMATA.setdefault(str(filename), schema)\n")], '''
t = tempfile.mkdtemp()
p = os.path.join(t, "a.xml")
open(p, "w").write(XML)
a = core.loadSchema(p)
os.chdir(t)
b = core.loadSchema("a.xml", reload=True)
assert b is not a and core.loadSchema("a.xml") is b
''', 'a reload under another spelling of the path', 'later loads return the outdated instance')

P('c18-failed-parse', 'C18', [(C, '''    if name in SCHEMATA and not reload:
        return SCHEMATA[name]
''', '''    if reload:
        SCHEMATA.pop(name, None)
    elif name in SCHEMATA:
        return SCHEMATA[name]
''')], '''
a = core.parseSchema(XML, name="c18b")
try:
    core.parseSchema("<Schema><UIntegerElement/></Schema>", name="c18b", reload=True)
except ValueError:
    pass
assert core.loadSchema("c18b") is a
''', 'a failing reload of parsed text', 'the previously registered schema is lost')

P('c19-missing-module-stops', 'C19', [(C, '''                        break
                except ModuleNotFoundError:
                    continue
''', '''                        break
                except ModuleNotFoundError:
                    break
''')], '''
t = tempfile.mkdtemp()
open(os.path.join(t, "only-here.xml"), "w").write(XML)
assert core.loadSchema("only-here.xml", paths=["{no_such_package}", t]).filename.endswith("only-here.xml")
''', 'a missing package before the right directory in the search path', 'the search stops at the missing package')

P('c19-upper-extension', 'C19', [(C, "            if key.lower().endswith('.xml'):\n", "            if key.endswith('.xml'):\n")], '''
t = tempfile.mkdtemp()
open(os.path.join(t, "UP.XML"), "w").write(XML)
assert "UP.XML" in core.listSchemata(t)
''', 'a schema file with an upper case extension', 'the schema is not listed')

P('c19-listing-order', 'C19', [(C, "                        schemata.setdefault(key, []).append(value)\n", "                        found = schemata.setdefault(key, [])\n                        if value not in found:\n                            found.insert(len(found) - (len(found) > 1), value)\n")], '''
ts = [tempfile.mkdtemp() for i in range(3)]
for t in ts:
    open(os.path.join(t, "o.xml"), "w").write(XML)
assert [str(p.parent) for p in core.listSchemata(*ts)["o.xml"]] == ts
''', 'the same file name in three directories', 'the listing order differs from the search order')

P('c20-exit-without-close', 'C20', [(C, '''        """ Close this document on exiting context manager.
        """
        self.close()
''', '''        """ Close this document on exiting context manager.
        """
        if exc_type is None or issubclass(exc_type, Exception):
            self.close()
''')], '''
t = tempfile.mktemp()
open(t, "wb").write(el(0xBA, b"x"))
s = schema()
try:
    with s.load(t) as d:
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
os.unlink(t)
assert d.stream.closed
''', 'a context left by KeyboardInterrupt or SystemExit', 'the file stays open')

P('c20-header-only-first', 'C20', [(C, "                if not headers:\n                    self.payloadOffset = pos\n", "                if not headers and pos < (self.size or 0):\n                    self.payloadOffset = pos\n")], '''
s = schema("c20b")
d = s.loads(s.encodes({}, headers=True))
assert list(d) == []
''', 'a document consisting of nothing but a header', 'the header shows among the roots although it was not asked for')

P('c21-close-clears-all', 'C21', [(T, '''        try:
            self._ready.wait(self.timeout)
            self._ready.clear()
            
            with''', '''        try:
            self._ready.clear()
            
            with'''), (T, '''                for i, fp in list(self.threads.items()):
                    if fp.closed:
                        del self.threads[i]
''', '''                for i, fp in self.threads.items():
                    if fp.closed:
                        self.threads = {k: v for k, v in self.threads.items() if k != i}
''')], '''
''', 'x', 'x')
PLANTS.pop()

P('c21-shared-position', 'C21', [(T, '''            fp = io.FileIO(*self.initArgs, **self.initKwargs)
''', '''            self._fp = io.FileIO(*self.initArgs, **self.initKwargs)
            fp = self._fp
''')], '''
t = tempfile.mktemp()
open(t, "wb").write(b"abcdef")
f = threaded_file.ThreadAwareFile(t, "rb")
real = io.FileIO
go, done = threading.Event(), threading.Event()
out = {}
import time
class Slow(io.FileIO):
    def __init__(self, *a, **k):
        real.__init__(self, *a, **k)
class G:
    def __setattr__(self, k, v): object.__setattr__(self, k, v)
# make the interleaving certain: pause between the two lines, by tracing
def tracer(frame, ev, arg):
    if frame.f_code.co_name == "getThreadStream":
        def local(fr, e, a):
            if e == "line" and threading.current_thread().name == "A":
                if getattr(local, "seen", None) == fr.f_lineno: return local
                src = __import__("linecache").getline(fr.f_code.co_filename, fr.f_lineno)
                if "fp = self._fp" in src or "_setThreadStream" in src:
                    if not go.is_set():
                        go.set(); done.wait(5)
            return local
        return local
def a():
    sys.settrace(tracer)
    out["a"] = f.read(2); out["a2"] = f.read(2)
    sys.settrace(None)
def b():
    go.wait(5)
    out["b"] = f.read(3)
    done.set()
A = threading.Thread(target=a, name="A"); B = threading.Thread(target=b, name="B")
A.start(); B.start(); A.join(); B.join()
os.unlink(t)
assert out == {"a": b"ab", "a2": b"cd", "b": b"abc"}, out
''', 'two threads making their first access at the same time', 'both threads get the same stream')

P('c22-reopen-position', 'C22', [(T, '''    def seek(self, *args, **kwargs):
        return self.getThreadStream().seek(*args, **kwargs)
''', '''    def seek(self, offset, whence=0):
        return self.getThreadStream().seek(max(offset, 0), whence)
''')], '''
t = tempfile.mktemp()
open(t, "wb").write(b"abcdef")
f = threaded_file.ThreadAwareFile(t, "rb")
f.seek(-2, 2)
r = f.read()
os.unlink(t)
assert r == b"ef", r
''', 'a seek backwards relative to the end or the position', 'negative offsets are ignored')

P('c22-truncate-zero', 'C22', [(T, "        newFile = kwargs.pop('_new', True)\n", "        newFile = kwargs.pop('_new', True) and not kwargs.get('lazy')\n"), (T, '''        self.initArgs = args
''', '''        self.initArgs = args[:2]
''')], '''
t = tempfile.mktemp()
open(t, "wb").write(b"abcdef")
try:
    fd = os.open(t, os.O_RDONLY)
    f = threaded_file.ThreadAwareFile(fd, "rb", False)
    raw = f.threads[threading.get_ident()]
    assert raw.closefd is False
    f.close()
    os.fstat(fd)
finally:
    os.unlink(t)
''', 'closefd given as a positional argument', 'closing the thread-aware file closes the caller\'s descriptor')

P('c24-depth-shared', 'C24', [(U, "        if abs(d) > 0 and isinstance(el, core.MasterElement):\n", "        if d != 0 and d > -8 and isinstance(el, core.MasterElement):\n")], '''
s = schema()
b = el(0xB9, b"\\x01")
xml = "<Schema>" + "".join('<MasterElement name="L%d" id="0x%X">' % (i, 0xA0 + i) for i in range(9)) + '<UIntegerElement name="U" id="0xB9"/>' + "</MasterElement>" * 9 + "</Schema>"
s = core.parseSchema(xml, name="c24a")
for i in reversed(range(9)):
    b = el(0xA0 + i, b)
assert [e.name for e in util.flatiter(s.loads(b))][-1] == "U"
''', 'a document nested 8 or more levels deep', 'elements at deep levels are left out')

P('c25-verify-declared', 'C25', [(C, "                for subel in el:\n                    _crawl(subel)\n", "                for subel in el:\n                    if subel.size:\n                        _crawl(subel)\n")], '''
s = schema()
raises(Exception, s.verify, el(0xA0, el(0xCF, b"")))
''', 'an empty unknown element', 'an empty unknown element passes verification')

P('c26-clobber-link', 'C26', [('ebmlite/tools/utils.py', "    if os.path.exists(output) and not args.clobber:\n", "    if os.path.exists(args.output) and not args.clobber:\n")], '''
import subprocess
t = tempfile.mkdtemp()
open(t + "/a.ebml", "wb").write(el(0xBA, b"x"))
open(t + "/s.xml", "w").write(XML)
open(t + "/out.txt", "w").write("precious")
subprocess.run([sys.executable, "-m", "ebmlite.tools.view_ebml", t + "/a.ebml", t + "/s.xml", "-o", "~/out.txt"], env=dict(os.environ, HOME=t), capture_output=True)
assert open(t + "/out.txt").read() == "precious"
''', 'an output path starting with ~', 'an existing file in the home directory is overwritten')

P('c26-max-codec', 'C26', [('ebmlite/tools/ebml2xml.py', "offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)", "offsets=True, sizes=True, types=True, ids=True)")], '''
import subprocess
t = tempfile.mkdtemp()
open(t + "/a.ebml", "wb").write(el(0xA0, el(0xB6, b"abc")))
open(t + "/s.xml", "w").write(XML)
r = subprocess.run([sys.executable, "-m", "ebmlite.tools.ebml2xml", t + "/a.ebml", t + "/s.xml", "-m", "-e", "hex"], capture_output=True, text=True).stdout
assert 'encoding="hex"' in r, r
''', 'maximum description together with an encoding', 'the chosen encoding is ignored')

P('c27-payload-offset', 'C27', [(C, '''                    and self.offset == other.offset
                    and self.size == other.size
                    and self.schema == other.schema)
''', '''                    and self.payloadOffset + self.size == other.payloadOffset + other.size
                    and self.size == other.size
                    and self.schema == other.schema)
''')], '''
s = schema()
a = s.loads(b"\\x00"[:0] + el(0xB6, b"ab", 4) )
d1 = list(s.loads(el(0xB6, b"ab", 4)))[0]
x = BytesIO(b"..." + el(0xB6, b"ab", 1)); x.seek(3)
d2 = list(s.load(x))[0]
assert not d1 == d2
''', 'elements with different positions and descriptor widths but the same payload position', 'they compare equal')

P('c28-registered-before-built', 'C28', [(C, '''    schema = Schema(stream, name=name, **kwargs)
    name = name or schema.name
    if name:
        SCHEMATA[name] = schema
    return schema''', '''    if name:
        # Register first, so a name is only ever parsed once
        schema = SCHEMATA[name] = Schema.__new__(Schema)
        schema.__init__(stream, name=name, **kwargs)
    else:
        schema = Schema(stream, name=name, **kwargs)
    name = name or schema.name
    if name:
        SCHEMATA[name] = schema
    return schema''')], '''
got = []
class Src(io.StringIO):
    def read(self, *a):
        if threading.current_thread().name == "A" and not got:
            th = threading.Thread(target=lambda: got.append("M" in getattr(core.parseSchema(XML, name="c28a"), "elementsByName", ())))
            th.start(); th.join()
        return io.StringIO.read(self, *a)
A = threading.Thread(target=lambda: core.parseSchema(Src(XML), name="c28a"), name="A")
A.start(); A.join()
assert got == [True], got
''', 'a second thread asking for a name while the first is still parsing it', 'the second thread gets an unfinished schema')

P('c29-small-prefetch', 'C29', [(C, "        if el.precache and not nocache:\n", "        if (el.precache or el.size <= 8 and type(el).__base__ is StringElement) and not nocache:\n")], '''
class R(BytesIO):
    log = []
    def read(self, n=-1):
        R.log.append((self.tell(), n))
        return BytesIO.read(self, n)
s = schema()
b = el(0xA0, el(0xB3, b"abc"))
m = s.load(R(b))[0]
del R.log[:]
list(m)
assert not [r for r in R.log if r[0] >= 4 and r[0] + r[1] > 4], R.log
''', 'short strings', 'payloads of short strings are read while iterating')
