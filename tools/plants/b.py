"""Second round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TV = 'ebmlite/tools/view_ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


P('c01-explicit-allones', 'C01', [(N, '''    elif val > (1 << (7 * length)) - 2:
''', '''    elif val >> (7 * length):
'''), (N, '''        prefix = LENGTH_PREFIXES[length]
''', '''        prefix = LENGTH_PREFIXES[max(length, 1)]
''')], '''
for w in range(1, 8):
    raises(ValueError, encoding.encodeSize, 2**(7*w) - 1, w)
''', 'a size of all ones for an explicitly requested width', 'the size is written as "unknown"')

P('c01-float-compare', 'C01', [(D, '    if size == (2**(7*length)) - 1:\n', '    if size == 2.**(7*length) - 1:\n')], '''
assert decoding.readElementSize(BytesIO(b"\\x01" + b"\\xff" * 7)) == (None, 8)
''', 'the 8 byte marker of unknown size', 'an 8 byte unknown size decodes as 2**56-1')

P('c02-max-exclusive', 'C02', [(U, '        if len(result) == count:\n', '        if count == len(result):\n'), (U, "for i in (x for x in range(idrange[0], idrange[1] + 1) if", "for i in (x for x in range(idrange[0], idrange[1] + (count > 1 or maxId > idrange[1])) if")], '''
assert util.createID(schema(), "a", minId=0x90, maxId=0x90) == [0x90]
''', 'a single ID requested with an explicit upper bound that only the bound itself meets', 'the upper bound is not inclusive')

P('c02-lower-case-d', 'C02', [(U, "               min(ranges[idc][1], maxId))\n", "               min(ranges[idc][1], maxId if idClass.isupper() else maxId or ranges[idc][1]))\n"), (U, "    exclude = set(exclude).union(schema.elements.keys())\n", "    exclude = set(exclude).union(schema.elementsByName)\n    exclude.update(i for i in schema.elements if i <= 0x3FFFFE)\n")], '''
s = schema(xml='<Schema><UIntegerElement name="A" id="0x101FFFFF"/></Schema>', name="c02x")
assert util.createID(s, "d") == [0x10200000]
''', 'a schema that already uses a 4 byte ID', 'the same 4 byte ID is generated again')

P('c03-exact-width-sign', 'C03', [(N, '''            if packed[0] & 0b10000000:
                packed = pad + packed
        else:''', '''            if packed[0] & 0b10000000 and len(packed) != length:
                packed = pad + packed
        else:''')], '''
try:
    r = decoding.readInt(BytesIO(encoding.encodeInt(40000, 2)), 2)
except ValueError:
    r = 40000
assert r == 40000, r
''', 'a positive integer with its top bit set at an explicit width one byte too small', 'the integer is written and read back negative')

P('c03-uint-nine', 'C03', [(D, "    return _struct_uint64_unpack_from(data.rjust(8, b'\\x00'))[0]\n", "    return int.from_bytes(data.lstrip(b'\\x00')[:7], 'big') if size == 7 else _struct_uint64_unpack_from(data.rjust(8, b'\\x00'))[0] & 0x7FFFFFFFFFFFFFFF | (data[0] >> 7 and size == 8) << 63\n")], '''
v = 2**63 + 5
assert decoding.readUInt(BytesIO(encoding.encodeUInt(v)), 8) == v
assert decoding.readUInt(BytesIO(b"\\xff" * 8), 8) == 2**64 - 1
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c04-binary-trailing-zeros', 'C04', [(N, '''    elif len(val) <= length:
        return val.ljust(length, b'\\x00')
''', '''    elif len(val.rstrip(b'\\x00')) <= length:
        return val[:length].ljust(length, b'\\x00')
''')], '''
raises(ValueError, encoding.encodeBinary, b"ab\\0\\0", 3)
''', 'binary data whose excess over the requested length is all zeros', 'data is cut instead of refused')

P('c04-bom', 'C04', [(D, "    return str(data, 'utf_8')\n", "    return str(data, 'utf_8_sig')\n")], '''
t = "\\ufeffabc"
assert decoding.readUnicode(BytesIO(t.encode("utf8")), 6) == t
''', 'text beginning with U+FEFF', 'the first character is lost')

P('c04-ascii-upper', 'C04', [(N, "        val = val.encode('ascii', 'replace')\n", "        val = val.encode('latin-1', 'replace')\n")], '''
r = encoding.encodeString("a\\u00a0b")
assert r == b"a?b", r
assert encoding.encodeString("\\u0100") == b"?"
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c05-empty-binary', 'C05', [(C, "        return bytearray(stream.read(size))\n", "        return bytearray(stream.read(size or -1))\n")], '''
s = schema()
d = s.loads(el(0xB6, b"") + el(0xB0, b"\\1"))
assert d[0].value == b"", d[0].value
''', 'an empty binary element that is not the last', 'its value is the remainder of the file')

P('c05-size-bound', 'C05', [(C, '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs''', '''        pos = self.payloadOffset
        while getattr(self, '_size', None) is None or pos < self._size:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs''')], '''
import gzip
s = schema()
with tempfile.TemporaryDirectory() as t:
    f = t + "/a.gz"
    with gzip.open(f, "wb") as g:
        g.write(el(0xB6, b"a" * 50) * 100)
    with gzip.open(f, "rb") as g:
        assert len(list(s.load(g))) == 100
''', 'a stream with the name of a file of another size (e.g. a compressed file)', 'elements at the end are missing')

P('c05-raw-of-void', 'C05', [(C, '''        """ Get the raw binary of the element's value.
        """
''', '''        """ Get the raw binary of the element's value, if it isn't cached.
        """
        if self._value is not None and self.dtype is bytearray:
            return bytes(self._value)
''')], '''
s = schema()
v = s.loads(el(0xEC, b"abc"))[0]
v.value
assert v.getRawValue() == b"abc"
''', 'a Void element whose value was asked for before its raw value', 'its raw value is empty')

P('c06-unknown-skipped', 'C06', [(C, '            numChildren = 0\n', '            numChildren = int(0)\n'), (C, '''                    # TODO: Cache parsed elements?
                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += 1
''', '''                    # TODO: Cache parsed elements?
                    _el, pos = self.parseElement(self.stream, nocache=True)
                    numChildren += _el.size > 0 or _el.precache or isinstance(_el, MasterElement)
''')], '''
s = schema()
m = s.loads(b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0xB6, b"") + el(0xBA, b"x"))[0]
m.size
assert len(m) == 2, len(m)
''', 'an empty text or binary element in a container of unknown size', 'the length does not count it')

P('c06-eof-offset', 'C06', [(C, '''            self._size = end - self.payloadOffset
''', '''            self._size = min(end, self.stream.tell()) - self.payloadOffset
''')], '''
s = schema()
m = s.loads(b"\\xa0\\xff" + el(0xB0, b"\\1") + el(0xB6, b"abc"))[0]
assert m.size == 8
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c07-pair-of-masters', 'C07', [(C, '                for v in data:\n                    # Items may be name/value', '                for v in list(data):\n                    # Items may be name/value'), (C, '''tuples, or data themselves
                    stream.write(cls.encodePayload([v] if _isPair(v) else v))
''', '''tuples, or data themselves
                    stream.write(cls.encodePayload([v] if _isPair(v) and not isinstance(v[0], int) else v))
''')], '''
s = schema()
assert s.encodes([(0xBA, "x")]) == s.encodes([("T", "x")])
''', 'a list of pairs at the root keyed by ID', 'it is refused')

P('c07-none-skipped', 'C07', [(C, '            # TODO: Validation of hierarchy, multiplicity, mandate, etc.\n            result.extend', '            # TODO: Validation of hierarchy, multiplicity, etc.\n            result.extend'), (C, '''        for k, v in data:
            if k not in cls.schema:
''', '''        for k, v in data:
            if not v and isinstance(v, (bytes, str)):
                continue
            if k not in cls.schema:
''')], '''
s = schema()
assert len(list(s.loads(s.encodes({"M": [("S", ""), ("B", b"x")]}))[0])) == 2
''', 'an empty string or empty bytes', 'the element is left out')

P('c08-list-length', 'C08', [(C, "                result.extend(cls.encode(v, length, lengthSize, infinite))\n", "                result.extend(cls.encode(v, length or cls.length, lengthSize, infinite))\n"), (C, "            return encoding.encodeFloat(data, length)\n" if False else "        return encoding.encodeFloat(data, length)\n", "        return encoding.encodeFloat(data, length or None)\n")], '''
s = schema()
r = bytes(s["F"].encode(1.5, length=0))
assert r == b"\\xb2\\x80", r
''', 'a float with an explicit length of 0', 'a length other than the requested one is written')

P('c08-infinite-list-width', 'C08', [(C, '''                result.extend(cls.encode(v, length=length,
                                         lengthSize=lengthSize,
                                         infinite=infinite))
''', '''                result.extend(cls.encode(v, length=length,
                                         lengthSize=None if infinite else lengthSize,
                                         infinite=infinite))
''')], '''
s = schema()
r = bytes(s["M"].encode([[("U", 1)], [("U", 2)]], lengthSize=4, infinite=True))
assert r == b"\\xa0\\x1f\\xff\\xff\\xff\\xb0\\x81\\x01\\xa0\\x1f\\xff\\xff\\xff\\xb0\\x81\\x02", r
''', 'a list of lists written with unknown size and an explicit descriptor width', 'the width is ignored')

P('c09-gc-falsy', 'C09', [(C, '''        if self._value is None:
            return 0

        self._value = None
        return 1
''', '''        if not self._value:
            return 0

        self._value = None
        return 1
''')], '''
s = schema()
m = s.loads(el(0xA0, el(0xB0, b"\\0") + el(0xB0, b"\\1")))[0]
m.value
assert m.gc(recurse=True) == 3
''', 'a cached value that is 0 or empty', 'it is neither counted nor dropped')

P('c09-gc-not-deep', 'C09', [(C, '            if recurse:\n', '            if recurse and value:\n'), (C, "                cleared += sum(ch.gc(recurse) for ch in value)\n", "                cleared += sum(ch.gc() for ch in value)\n")], '''
s = schema()
m = s.loads(el(0xA0, el(0xA1, el(0xB9, b"\\1"))))[0]
m[0].value
assert m.gc(recurse=True) == 3
''', 'cached values two levels down', 'they are not dropped or counted')

P('c09-length-of-partial', 'C09', [(C, '''                n = 0  # In case there's nothing to enumerate
                for n, _el in enumerate(self.__iter__(nocache=True), 1):
                    pass
                self._length = n
        return self._length
''', '''                self._length = 0
                for _el in self.__iter__(nocache=True):
                    self._length += 1
        return self._length
''')], '''
class F(BytesIO):
    n = -1
    def read(self, *a):
        F.n -= 1
        if F.n == 0: raise OSError("injected")
        return BytesIO.read(self, *a)
s = schema()
m = s.load(F(el(0xA0, el(0xB6, b"a") * 5)))[0]
F.n = 6
raises(OSError, len, m)
assert len(m) == 5, len(m)
''', 'an error (or another thread) while the children are counted', 'a partial count is remembered')
PLANTS[-1]['prop'] = 'C12'
PLANTS[-1]['id'] = 'c12-length-of-partial'

P('c10-strict-parse', 'C10', [(C, '''        payloadEnd = pos + self.size

        while pos < payloadEnd:
''', '''        payloadEnd = pos + self.size

        self.stream.seek(payloadEnd - 1 if payloadEnd > pos else pos)
        while pos < payloadEnd and (pos + 2 > payloadEnd or self.stream.read(1) or not nocache):
''')], '''
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c10-truncated-container', 'C10', [(C, '''        # Note: another thread may clear `_value` (see `gc()`) at any time.
        value = self._value
        if value is None:
            value = self._value = list(self)
        return value

    def __getitem__(self, *args) -> Element:
''', '''        # Note: another thread may clear `_value` (see `gc()`) at any time.
        value = self._value
        if value is None:
            value = list(self)
            if value and value[-1].payloadOffset + value[-1].size > self.payloadOffset + self.size:
                value.pop()
            self._value = value
        return value

    def __getitem__(self, *args) -> Element:
'''), (C, '''        while pos < payloadEnd:
            self.stream.seek(pos)
''', '''        while pos + 1 < payloadEnd:
            self.stream.seek(pos)
''')], '''
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c10-one-behind', 'C10', [(C, '''        pos = self.payloadOffset
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
                    # (Apparently) not the TypeError raised at EOF!
                    raise
                break
''', '''        pos = self.payloadOffset
        last = None
        while True:
            self.stream.seek(pos)
            try:
                el, pos = self.parseElement(self.stream, nocache=nocache)
                if last is not None:
                    yield last
                last = el
            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
                    # (Apparently) not the TypeError raised at EOF!
                    raise
                break
        if last is not None:
            yield last
''')], '''
s = schema()
got = []
try:
    for e in s.loads(el(0xBA, b"x") + el(0xB2, b"\\0" * 8)[:5]):
        got.append(e.name)
except Exception:
    pass
assert got[:1] == ["T"], got
''', 'a file cut off within a number that is read in advance', 'the complete element before it is not yielded')

P('c11-zero-width', 'C11', [(D, '''    elif byte >= 2:
        return 7, byte & 0b1

    return 8, 0
''', '''    elif byte >= 2:
        return 7, byte & 0b1
    elif byte == 1:
        return 8, 0

    raise IOError('Invalid size descriptor')
''')], '''
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c12-partial-value', 'C12', [(C, '    def __getitem__(self, *args) -> Element:\n        # TODO: Parse', '    def __getitem__(self, *args):\n        # TODO: Parse'), (C, '''        value = self._value
        if value is None:
            value = self._value = list(self)
        return value

    def __getitem__''', '''        value = self._value
        if value is None:
            value = self._value = []
            value.extend(self)
        return value

    def __getitem__''')], '''
class F(BytesIO):
    n = -1
    def read(self, *a):
        F.n -= 1
        if F.n == 0: raise OSError("injected")
        return BytesIO.read(self, *a)
s = schema()
m = s.load(F(el(0xA0, el(0xB6, b"a") * 5)))[0]
F.n = 6
try:
    m.value
except OSError:
    pass
assert len(m.value) == 5, m.value
''', 'a stream error while the children are read', 'an incomplete list of children stays cached')

P('c12-header-once', 'C12', [(C, '''        self.info = {}

        try:
            # Attempt''', '''        self.info = {}
        self._offsets = {}

        try:
            # Attempt'''), (C, '''            n = None
            for n, el in enumerate(self):
                if n == idx:
                    return el
''', '''            if idx in self._offsets:
                self.stream.seek(self._offsets[idx])
                return self.parseElement(self.stream)[0]
            n, pos = None, self.payloadOffset
            for n, el in enumerate(self):
                self._offsets[n] = pos
                pos = self.stream.tell() if el._value is not None else el.payloadOffset + el.size
                if n == idx:
                    return el
''')], '''
s = schema()
class G(BytesIO):
    pass
d = s.load(BytesIO(el(0xBA, b"abc") + el(0xBA, b"x") + el(0xB2, b"") + el(0xBA, b"y")))
for i in (3, 2, 1, 0, 3):
    assert d[i].value == ["abc", "x", 0.0, "y"][i]
s = schema(xml='<Schema><MasterElement name="P" id="0xA0" precache="1"><UnicodeElement name="Z" id="0xB0"/></MasterElement><UnicodeElement name="T" id="0xBA"/></Schema>', name="c12p")
d = s.load(BytesIO(el(0xA0, el(0xB0, b"abc")) + el(0xBA, b"x")))
d[1]
assert d[1].value == "x", d[1]
''', 'indexing past a pre-read container twice', 'the second time another element is returned')
PLANTS[-1]['prop'] = 'C20'
PLANTS[-1]['id'] = 'c20-index-offsets'

P('c13-strip', 'C13', [(U, '    elif not isinstance(el, core.VoidElement):\n        xmlEl.set', '    else:\n        xmlEl.set'), (U, "        val = cls.dtype(xmlEl.get('value', ''))\n", "        val = cls.dtype(xmlEl.get('value', '').rstrip('\\n'))\n")], '''
s = schema()
b = el(0xBA, b"a\\n")
o = BytesIO()
util.xml2ebml(ET.fromstring(ET.tostring(util.toXml(s.loads(b)))), o, s, headers=False)
assert s.loads(o.getvalue())[0].value == "a\\n"
''', 'text ending in a line break', 'the line break is lost in XML')

P('c13-float-digits', 'C13', [(U, '    elif not isinstance(el, core.VoidElement):\n        xmlEl.set', '    else:\n        xmlEl.set'), (U, "        xmlEl.set('value', str(el.value))\n", "        xmlEl.set('value', str(el.value) if el.dtype is not float else '%.16g' % el.value)\n")], '''
s = schema()
for v in (0.1 + 0.2, 1/3, 2.2250738585072014e-308):
    b = bytes(s["F"].encode(v))
    o = BytesIO()
    util.xml2ebml(ET.fromstring(ET.tostring(util.toXml(s.loads(el(0xA0, b))))), o, s, headers=False)
    assert s.loads(o.getvalue())[0][0].value == v
''', 'a float that needs 17 digits', 'floats lose their last digit in XML')

P('c13-ids-need-types', 'C13', [(U, "        if ids and isinstance(el.id, int):\n", "        if ids and types and isinstance(el.id, int):\n")], '''
s = schema()
x = util.toXml(s.loads(el(0x4FFE, b"abc")), types=False)
o = BytesIO()
util.xml2ebml(x, o, s, headers=False)
assert o.getvalue().endswith(b"abc")
''', 'unknown elements converted with IDs but without types', 'the unknown elements cannot be converted back')

P('c14-width-boundary', 'C14', [(U, '        for chEl in xmlEl:\n', '        for chEl in list(xmlEl):\n'), (U, '''        payload = children.getvalue()
''', '''        payload = bytes(children.getbuffer())
'''), (U, "max(sl, encoding.getLength(len(payload))))", "max(sl, encoding.getLength(len(payload) + 1)))")], '''
s = schema()
o = BytesIO()
x = ET.fromstring('<M sizeLength="1"><S value="%s"/></M>' % ("a" * 124))
util.xml2ebml(x, o, s, headers=False)
assert o.getvalue()[:2] == b"\\xa0\\xfe", o.getvalue()[:4]
''', 'a container whose contents just fit the requested width', 'a wider descriptor than requested is written')

P('c14-header-first', 'C14', [(U, "    if headers and 'EBML' not in (el.tag for el in xmlRoot):\n", "    if headers and not (len(xmlRoot) and xmlRoot[0].tag == 'EBML'):\n")], '''
s = schema()
o = BytesIO()
x = ET.fromstring('<%s><EBML><EBMLVersion value="1"/></EBML><T value="x"/></%s>' % (s.document.__name__, s.document.__name__))
x.insert(0, ET.Comment("made by hand"))
util.xml2ebml(x, o, s)
assert o.getvalue().count(b"\\x1a\\x45\\xdf\\xa3") == 1
''', 'a comment before the header in the XML', 'a second header is added')

P('c14-unknown-nested', 'C14', [(U, "            xmlElement2ebml(chEl, children, schema, sl, unknown)\n", "            xmlElement2ebml(chEl, children, schema, sl)\n"), (U, '''        numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
''', '''        numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength or None,
''')], '''
s = schema()
x = ET.fromstring('<M><Nope id="0x4FFE"/></M>')
raises(NameError, util.xml2ebml, x, BytesIO(), s, headers=False, unknown=False)
''', 'an unknown element inside a container when unknown elements are not allowed', 'it is written instead of refused')

P('c14-empty-attribute', 'C14', [(U, '''    sl = xmlEl.get('sizeLength')
    if sl is not None:
        sl = int(sl)
''', '''    sl = xmlEl.get('sizeLength')
    if sl is not None:
        sl = max(int(sl), encoding.getLength(size or 0))
    elif size is not None and size > 126 and not isinstance(val, (int, float)):
        sl = 4
''')], '''
assert 0
''', 'x', 'x')
PLANTS.pop()

P('c15-continuous-block', 'C15', [(X, '''        result = result.replace('\\n', '')

        if not self.cols:
''', '''        if not self.cols:
            result = result.strip()
        else:
            result = result.replace('\\n', '')

        if not self.cols:
''')], '''
assert "\\n" not in xml_codecs.Base64Codec(cols=0).encode(b"a" * 60)
''', 'more than 57 bytes written as one block', 'the block contains line breaks')

P('c15-hex-label', 'C15', [(X, "'[{:06d}] '.format(i + offset)", "'[{:06d}] '.format((i + offset) % 1000000)")], '''
assert "[1000002]" in xml_codecs.HexCodec().encode(b"abc", offset=1000002)
''', 'data at an offset of a million or more', 'the offset labels are wrong')

P('c15-odd-width', 'C15', [(X, '''            for i in range(0, len(word), 2):
                numbytes += out.write((int(word[i:i+2], 16).to_bytes(1, 'big')))
''', '''            numbytes += out.write(int(word, 16).to_bytes(len(word) // 2, 'big')[:32])
''')], '''
c = xml_codecs.HexCodec(width=40, cols=80)
d = bytes(range(100))
assert c.decode(c.encode(d)) == d
''', 'hex text in words of more than 32 bytes', 'data is lost on decoding')

P('c15-stream-count', 'C15', [(X, "            numbytes += out.write(indent) + out.write(result[chunk:chunk+self.cols])\n", "            out.write(indent)\n            numbytes += out.write(result[chunk:chunk+self.cols])\n")], '''
o = StringIO()
n = xml_codecs.Base64Codec(cols=10).encode(b"a" * 30, stream=o, indent="  ")
assert n == len(o.getvalue())
''', 'indented base64 with a line length other than 76 written to a stream', 'the returned count is too small')

P('c16-child-cache', 'C16', [(C, '''        if cls.children and elId in cls.children:
            return True

        return elId in cls.schema.globals
''', '''        key = (cls.id, elId)
        if key not in _validChildren:
            _validChildren[key] = bool(cls.children and elId in cls.children) or elId in cls.schema.globals
        return _validChildren[key]
'''), (C, '''# SCHEMATA: A dictionary''', '''_validChildren = {}

# SCHEMATA: A dictionary''')], '''
s = schema()
t = core.parseSchema('<Schema><MasterElement name="M" id="0xA0"/><UIntegerElement name="U" id="0xB0"/></Schema>', name="c16b")
b = b"\\xa0\\xff" + el(0xB0, b"\\1")
assert s.loads(b)[0].size == 3
assert t.loads(b)[0].size == 0
''', 'two schemata giving an ID different parents', 'the container ends where the other schema says')

P('c16-xml-consumed', 'C16', [(U, '''    sl = xmlEl.get('sizeLength')
    if sl is not None:
        sl = int(sl)
''', '''    sl = xmlEl.attrib.pop('sizeLength', None)
    if sl is not None:
        sl = int(sl)
''')], '''
s = schema()
x = ET.fromstring('<M><S value="a" sizeLength="3"/></M>')
r = []
for i in range(2):
    o = BytesIO(); util.xml2ebml(x, o, s, headers=False); r.append(o.getvalue())
assert r[0] == r[1], r
''', 'the same XML tree converted twice', 'the caller\'s tree is changed')

P('c16-header-popped', 'C16', [(C, '''        if headers is True:
            stream.write(cls.encodePayload(cls._createHeaders()))
''', '''        if headers is True:
            header = cls._createHeaders()
            if isinstance(data, dict) and 'EBML' in data and header:
                header['EBML'].update(data.pop('EBML') or {})
            stream.write(cls.encodePayload(header))
''')], '''
s = schema()
d = {"EBML": {"EBMLVersion": 2}, "T": "x"}
s.encodes(d, headers=True)
assert "EBML" in d
''', 'data that contains a header itself, encoded with headers', 'the caller\'s data is changed')

P('c17-true-word', 'C17', [(C, "                return str(d[k]).strip()[0] in 'Tt1'\n", "                return str(d[k]).strip() in ('1', 'true', 'True')\n")], '''
s = schema(xml='<Schema><UIntegerElement name="A" id="0x81" multiple="TRUE"/></Schema>', name="c17t")
assert s["A"].multiple
''', 'a flag written as TRUE', 'the flag is off')

P('c17-added-attribute', 'C17', [(C, '''            newatts = self.elementInfo[eid].copy()
            newatts.update(attribs)
            if self.elementInfo[eid] == newatts:
''', '''            newatts = attribs
            if all(newatts.get(k, v) == v for k, v in self.elementInfo[eid].items()):
''')], '''
raises(TypeError, core.parseSchema, '<Schema><UIntegerElement name="A" id="0x81"/><MasterElement name="M" id="0xA0"><UIntegerElement name="A" multiple="1"/></MasterElement></Schema>', name="c17u")
''', 'a later definition giving an attribute the first one lacks', 'the contradiction is accepted')

P('c17-nested-children', 'C17', [(C, '''        if baseClass is MasterElement:
            for chEl in el:
                self._parseSchema(chEl, cls)
''', '''        if baseClass is MasterElement and ('id' in attribs or not cls.children):
            for chEl in el:
                self._parseSchema(chEl, cls)
''')], '''
s = schema(xml='<Schema><MasterElement name="M" id="0xA0"><UIntegerElement name="A" id="0x81"/></MasterElement><MasterElement name="M"><UIntegerElement name="B" id="0x82"/></MasterElement></Schema>', name="c17w")
assert 0x82 in s and 0x82 in s["M"].children
''', 'children added to a container by an abbreviated later definition', 'those children are not defined')

P('c18-failed-reload', 'C18', [(C, '    global SCHEMATA\n\n    paths = paths or SCHEMA_PATH\n', '    global SCHEMATA\n\n    if not paths:\n        paths = SCHEMA_PATH\n'), (C, '''    if not filename.is_file():
        raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
''', '''    SCHEMATA.pop(str(filename), None)
    if not filename.is_file():
        raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
''')], '''
with tempfile.TemporaryDirectory() as t:
    f = t + "/a.xml"
    open(f, "w").write(XML)
    s = core.loadSchema(f)
    open(f, "w").write("<Schema><oops")
    raises(Exception, core.loadSchema, f, reload=True)
    open(f, "w").write(XML)
    assert core.loadSchema(f) is s
''', 'a reload that fails', 'later loads give another instance')

P('c18-symlink', 'C18', [(C, "    if hasattr(filename, 'expanduser'):\n", '    if isinstance(filename, Path):\n'), (C, "        filename = filename.expanduser().resolve()\n", "        filename = Path(os.path.abspath(filename.expanduser()))\n")], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.xml", "w").write(XML)
    os.symlink(t + "/a.xml", t + "/b.xml")
    assert core.loadSchema(t + "/a.xml") is core.loadSchema(t + "/b.xml")
''', 'the same file under a symbolic link', 'two instances of the same schema')

P('c18-parse-reload', 'C18', [(C, '    if isinstance(src, IOBase):\n', "    if hasattr(src, 'read'):\n"), (C, '''    schema = Schema(stream, name=name, **kwargs)
    name = name or schema.name
    if name:
        SCHEMATA[name] = schema
    return schema
''', '''    schema = Schema(stream, name=name, **kwargs)
    name = name or schema.name
    if name:
        SCHEMATA.setdefault(name, schema)
    return schema
''')], '''
a = core.parseSchema(XML, name="c18p")
b = core.parseSchema(XML, name="c18p", reload=True)
assert b is not a and core.parseSchema(XML, name="c18p") is b
''', 'parsed text reloaded', 'later loads return the outdated instance')

P('c19-env-first', 'C19', [(C, '''SCHEMA_PATH.extend(p for p in os.environ.get('EBMLITE_SCHEMA_PATH', '').split(os.path.pathsep)
                   if p not in SCHEMA_PATH)
''', '''SCHEMA_PATH[1:1] = [p for p in os.environ.get('EBMLITE_SCHEMA_PATH', '').split(os.path.pathsep)
                    if p not in SCHEMA_PATH]
''')], '''
import subprocess
e = dict(os.environ, EBMLITE_SCHEMA_PATH="/nonexistent-a")
o = subprocess.check_output([sys.executable, "-c", "from ebmlite import core; print(core.SCHEMA_PATH[-1])"], env=e, text=True)
assert o.strip() == "/nonexistent-a", o
''', 'a path in the environment variable', 'it is searched before the built-in schemata')

P('c19-broken-stops', 'C19', [(C, '''                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
                    # Note: an unusable XML encoding is a Lookup or ValueError
                    continue
''', '''                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
                    # Note: an unusable XML encoding is a Lookup or ValueError
                    break
''')], '''
with tempfile.TemporaryDirectory() as t:
    for i in range(6):
        open(t + "/a%d.xml" % i, "w").write(XML if i % 2 else "<oops")
    assert len(core.listSchemata(t)) == 3
''', 'a broken file among the schemata of a directory', 'the files after it are not listed')

P('c19-file-before-dir', 'C19', [(C, '''                    f = _expandSchemaPath(p, filename)
                    if f.is_file():
''', '''                    f = _expandSchemaPath(p, filename)
                    if f.exists():
''')], '''
with tempfile.TemporaryDirectory() as t:
    os.makedirs(t + "/a/s.xml"); os.makedirs(t + "/b")
    open(t + "/b/s.xml", "w").write(XML)
    core.loadSchema("s.xml", paths=[t + "/a", t + "/b"])
''', 'a directory with the name of the schema earlier on the path', 'the schema is not found')

P('c20-path-not-closed', 'C20', [(C, '''            stream = open(stream, 'rb')
            self._ownsStream = True
''', '''            self._ownsStream = isinstance(stream, str)
            stream = open(stream, 'rb')
''')], '''
from pathlib import Path
s = schema()
with tempfile.TemporaryDirectory() as t:
    Path(t, "a").write_bytes(el(0xBA, b"x"))
    d = s.load(Path(t, "a"))
    d.close()
    assert d.stream.closed
''', 'a document opened by a Path object', 'its file is never closed')

P('c20-header-later', 'C20', [(C, '''                self.info = el.dump()
                if not headers:
''', '''                self.info = {k: v for k, v in el.dump().items() if v or k != 'DocTypeVersion'}
                if not headers:
''')], '''
s = schema()
d = s.loads(el(0x1A45DFA3, el(0x4287, b"\\0")))
assert d.info == {"DocTypeVersion": 0} and d.version == 0
''', 'a document whose version is 0', 'the version is missing')

P('c22-rplusb', 'C22', [(T, '        if isinstance(mode, str):\n', '        if type(mode) is str:\n'), (T, "            if any(c in mode for c in 'awx+'):\n", "            if mode[:1] in ('a', 'w', 'x') or mode.endswith('+'):\n")], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"abc")
    raises(IOError, threaded_file.ThreadAwareFile, t + "/a", "r+b")
    raises(IOError, threaded_file.ThreadAwareFile, t + "/b", "bw")
''', 'a writing mode whose + or w is not at the usual place', 'the file is opened for writing')

P('c22-closeall-other', 'C22', [(T, '''            for v in list(self.threads.values()):
                v.close()
        finally:''', '''            while self.threads:
                self.threads.popitem()[1].close()
        finally:''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a", "wb").write(b"abcdef")
    f = threaded_file.ThreadAwareFile(t + "/a", "rb")
    f.read(2)
    f.closeAll()
    try:
        r = f.read(2)
    except ValueError:
        r = b"ab"
    assert r == b"ab"
    assert 0
''', 'x', 'x')
PLANTS.pop()

P('c23-gc-clears-list', 'C23', [(C, '        cleared = 0\n        value', '        cleared = int(0)\n        value'), (C, '''                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
        return cleared
''', '''                cleared += sum(ch.gc(recurse) for ch in value)
                value.clear()
            self._value = None
        return cleared
''')], '''
s = schema()
m = s.loads(el(0xA0, el(0xB0, b"\\1") * 3))[0]
v = m.value
m.gc(recurse=True)
assert len(v) == 3
''', 'one thread dropping caches while another uses the list of children', 'the other thread sees no children')

P('c24-xml-flags-swapped', 'C24', [(U, "            toXml(chEl, xmlEl, offsets, sizes, types, ids, binary_codec, void_codec)\n", "            toXml(chEl, xmlEl, offsets, sizes, ids, types, binary_codec, void_codec)\n")], '''
s = schema()
x = util.toXml(s.loads(el(0xBA, b"x")), types=True, ids=False)
assert "type" in x[0].attrib and "id" not in x[0].attrib
''', 'types requested without IDs or the reverse', 'the wrong attribute is written below the root')

P('c24-void-codec-nested', 'C24', [(U, '''            for i in el:
                pprint(i, values, out, indent, binary_codec, void_codec, _depth+1)
        else:
            out.write(": (%s)"''', '''            for i in el:
                pprint(i, values, out, indent, binary_codec, _depth=_depth+1)
        else:
            out.write(": (%s)"''')], '''
s = schema()
o = StringIO()
util.pprint(s.loads(el(0xA0, el(0xEC, b"abc"))), out=o, void_codec="hex")
assert "<hex>" in o.getvalue()
''', 'a Void inside a container printed with a codec for Voids', 'its contents are not shown')

P('c24-flat-depth', 'C24', [(U, "        if abs(d) > 0 and isinstance(el, core.MasterElement):\n", "        if d and len(el) and isinstance(el, core.MasterElement):\n" if False else "        if d != 0 and isinstance(el, core.MasterElement) and (first or el.size > 2):\n")], '''
s = schema()
assert len(list(util.flatiter(s.loads(el(0xA0, el(0xB0, b"")))))) == 2
''', 'a container holding only one empty element', 'the element is left out of flat iteration')

P('c24-dump-order', 'C24', [(C, '''            else:
                result[el.name] = el.dump()
        return result
''', '''            else:
                result.setdefault(el.name, el.dump())
        return result
''')], '''
s = schema()
m = s.loads(el(0xA0, el(0xB8, b"\\1") + el(0xB8, b"\\2")))[0]
assert m.dump() == {"U1": 2}
''', 'an element that should be single occurring twice', 'x')
PLANTS.pop()

P('c25-utf8-not-decoded', 'C25', [(C, '''            else:
                _ = el.value

            return True
''', '''            elif el.dtype is not str or el.size < 2:
                _ = el.value

            return True
''')], '''
s = schema()
raises(Exception, s.verify, el(0xBA, b"\\xff\\xfe"))
''', 'invalid UTF-8 text of two or more bytes', 'the document passes verification')

P('c25-deep', 'C25', [(C, '''            if isinstance(el, MasterElement):
                for subel in el:
                    _crawl(subel)
''', '''            if isinstance(el, MasterElement):
                for subel in (el if el.id is None or len(el) > 1 else el.value[:1]):
                    _crawl(subel) if not isinstance(subel, VoidElement) else None
                    if subel.name == 'Void' and subel.size == 0:
                        break
''')], '''
s = schema()
raises(Exception, s.verify, el(0xEC, b"") + el(0x4FFE, b"x"))
''', 'an unknown element after an empty Void', 'the document passes verification')

P('c26-missing-status', 'C26', [(TU, '''        sys.stderr.write("Input file does not exist: %s\\n" % args.input)
        exit(1)
''', '''        sys.stderr.write("Input file does not exist: %s\\n" % args.input)
        exit()
''')], '''
import subprocess
r = subprocess.run([sys.executable, "-m", "ebmlite.tools.view_ebml", "/nonexistent/x", "mide_ide.xml"], stderr=subprocess.DEVNULL)
assert r.returncode != 0
''', 'an input file that does not exist', 'the tool reports success')

P('c26-single-header', 'C26', [(TE, "        doc = schema.load(args.input, headers=True)\n", "        doc = schema.load(args.input, headers=not (args.single and args.max))\n")], '''
import subprocess
with tempfile.TemporaryDirectory() as t:
    open(t + "/s.xml", "w").write(XML)
    s = core.loadSchema(t + "/s.xml")
    open(t + "/a", "wb").write(s.encodes({"T": "x"}, headers=True))
    o = subprocess.check_output([sys.executable, "-m", "ebmlite.tools.ebml2xml", t + "/a", t + "/s.xml", "-m", "-s"])
    assert b"<EBML" in o
''', 'the options for maximum description and a single line together', 'the header is missing in the output')

P('c27-dtype-dropped', 'C27', [(C, '''            return (self.dtype == other.dtype
                    and self.id == other.id
                    and self.offset''', '''            return (self.id == other.id
                    and self.offset''')], '''
a = core.parseSchema('<Schema><UIntegerElement name="A" id="0x81"/></Schema>', name="c27a")
b = core.parseSchema('<Schema><FloatElement name="A" id="0x81"/></Schema>', name="c27b")
assert a == b and a.loads(b"\\x81\\x80")[0] != b.loads(b"\\x81\\x80")[0]
''', 'two schemata that differ only in the type of an element', 'elements of different types compare equal')

P('c27-string-raw', 'C27', [(C, '''    dtype = str

    def __eq__(self, other):
        if not super(StringElement, self).__eq__(other):
            return False
        return self.value == other.value
''', '''    dtype = str

    def __eq__(self, other):
        if not super(StringElement, self).__eq__(other):
            return False
        return self.getRawValue() == other.getRawValue()
''')], '''
s = schema()
assert s.loads(el(0xBA, b"a\\0x"))[0] == s.loads(el(0xBA, b"a\\0y"))[0]
''', 'texts that differ only after their first NUL', 'elements with the same value are unequal')

P('c28-class-temp', 'C28', [(C, '''        attribs = el.attrib.copy()
        eid = int(attribs['id'], 16) if 'id' in attribs else None
        ename = attribs['name'].strip() if 'name' in attribs else None

        # Use text in the element as its docstring. Note: embedded HTML tags
        # (as''', '''        Schema._attribs = el.attrib.copy()
        attribs = Schema._attribs
        eid = int(attribs['id'], 16) if 'id' in attribs else None
        ename = attribs['name'].strip() if 'name' in attribs else None

        # Use text in the element as its docstring. Note: embedded HTML tags
        # (as''')], '''
from ebmlite.core import Schema
class Meta(type(Schema)):
    pass
state = []
def trace(frame, event, arg):
    if frame.f_code.co_name != "_parseSchema":
        return trace if event == "call" else None
    def line(fr, ev, a):
        if "_attribs" in Schema.__dict__ and not state and "attribs" not in fr.f_locals:
            state.append(1)
            th = threading.Thread(target=lambda: core.parseSchema('<Schema><FloatElement name="Q" id="0x99"/></Schema>', name="c28y"))
            th.start(); th.join()
        return line
    return line
sys.settrace(trace)
s = core.parseSchema('<Schema><MasterElement name="M" id="0xA0"/></Schema>', name="c28x")
sys.settrace(None)
assert 0xA0 in s and 0x99 not in s
''', 'two threads parsing schemata at the same time', 'an element of one schema ends up in the other')

P('c28-same-name-raise', 'C28', [(C, '''    # Note: binary, so the XML's own declaration determines its encoding.
    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)
''', '''    # Note: binary, so the XML's own declaration determines its encoding.
    SCHEMATA.pop(origName, None)
    with filename.open('rb') as fs:
        schema = Schema(fs, **kwargs)
'''), (C, '''    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]
''', '''    if not reload and str(filename) in SCHEMATA:
        return SCHEMATA[str(filename)]
''')], '''
with tempfile.TemporaryDirectory() as t:
    open(t + "/a.xml", "w").write(XML)
    f = os.path.realpath(t + "/a.xml")
    class D(dict):
        def __contains__(self, k):
            r = dict.__contains__(self, k)
            if r and k == f and not once:
                once.append(1)
                dict.pop(self, k)       # what a reloading thread does at this moment
                assert 1
            return r
    once = []
    import inspect
    src = inspect.getsource(core.loadSchema)
    core.loadSchema(f)
    real = core.Schema
    def slow(*a, **k):
        seen.append(f in core.SCHEMATA)
        return real(*a, **k)
    seen = []
    core.Schema = slow
    core.loadSchema(f, reload=True)
    core.Schema = real
    assert seen == [True], "not available while it is reloaded"
''', 'a load of a name while another thread reloads it', 'a load fails, or gives an instance that is not kept')

P('c29-large-not-cached', 'C29', [(C, '    def value(self):\n        """ Parse and cache the element\'s value. """\n', '    def value(self):\n        """ Parse and (usually) cache the value. """\n'), (C, '''            self.stream.seek(self.payloadOffset)
            value = self._value = self.parse(self.stream, self.size)
        return value
''', '''            self.stream.seek(self.payloadOffset)
            value = self.parse(self.stream, self.size)
            if self.size < 65536 or self.precache:
                self._value = value
        return value
''')], '''
class F(BytesIO):
    def read(self, *a):
        assert not closed
        return BytesIO.read(self, *a)
closed = False
s = schema()
e = s.load(F(el(0xB6, b"a" * 70000)))[0]
e.value
closed = True
e.value
''', 'a value of 64 KiB or more', 'the value is not cached')

P('c29-len-caches', 'C29', [(C, '''        if el.precache and not nocache:
''', '''        if el.precache and not nocache or el.size is not None and esize == 1 and not isinstance(el, MasterElement):
''')], '''
class F(BytesIO):
    def read(self, *a):
        r = BytesIO.read(self, *a)
        assert b"Q" not in r
        return r
s = schema()
d = s.load(F(el(0xB6, b"Q") + el(0xBA, b"Q")))
assert len(d) == 2 and len(list(d)) == 2
''', 'payloads of exactly one byte', 'they are read while iterating')
