"""Eighth round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))




SM = 'ebmlite/schemata/matroska.xml'
SI = 'ebmlite/schemata/mide_ide.xml'
SN = 'ebmlite/schemata/mide_manifest.xml'
SC = 'ebmlite/schemata/mide_config_ui.xml'

P('c34-track-offset', 'C34', [(SM, '<IntegerElement name="TrackOffset" id="0x537F" webm="0" default="0">A value to add to the Block\'s Timecode. This can be used to adjust the playback offset of a track.</IntegerElement>',
 '<UIntegerElement name="TrackOffset" id="0x537F" webm="0" default="0">A value to add to the Block\'s Timecode. This can be used to adjust the playback offset of a track.</UIntegerElement>')], '''
s = core.loadSchema("matroska.xml")
d = s.loads(el(0x1654AE6B, el(0xAE, el(0x537F, b"\\xff"))))
assert d[0][0][0].value == -1, d[0][0][0].value
''', 'a track with a negative offset', 'it is read as a large positive number')

P('c34-stat-id', 'C34', [(SI, 'name="ChannelDataMinMeanMax" id="0xBC"', 'name="ChannelDataMinMeanMax" id="0xBD"')], '''
s = core.loadSchema("mide_ide.xml")
d = s.loads(el(0xA1, el(0xBC, b"abc")))
assert d[0][0].name == "ChannelDataMinMeanMax"
''', 'a data block with statistics', 'they are unknown')

P('c34-hwrev', 'C34', [(SN, 'name="HwRev" id="0x4D04" mandatory="1" multiple="0" minver="1" length="2"', 'name="HwRev" id="0x4D04" mandatory="1" multiple="0" minver="1" length="1"')], '''
s = core.loadSchema("mide_manifest.xml")
assert s["HwRev"].encode(3) == b"\\x4d\\x04\\x82\\x00\\x03"
assert s["HwRev"].encode(300)
''', 'a hardware revision', 'it is written with one byte, and those above 255 are refused')

P('c34-subchannel-once', 'C34', [(SI, '<MasterElement name="SubChannel" id="0x52A0" multiple="1"', '<MasterElement name="SubChannel" id="0x52A0" multiple="0"')], '''
s = core.loadSchema("mide_ide.xml")
d = s.loads(s["Channel"].encode([("SubChannel", {}), ("SubChannel", {})]))
v = d[0].dump()["SubChannel"]
assert isinstance(v, list) and len(v) == 2, v
''', 'a channel with several subchannels', 'dumping it keeps the last one only')

P('c34-vint-root', 'C34', [(SI, '    <UIntegerElement name="TimeBaseUTC"  id="0x5462" multiple="1"', '    <IntegerElement name="TimeBaseUTC"  id="0x5462" multiple="1"'),
 (SI, 'If present, used as the base for all future timecodes in the session.</UIntegerElement>', 'If present, used as the base for all future timecodes in the session.</IntegerElement>')], '''
s = core.loadSchema("mide_ide.xml")
d = s.loads(el(0x5462, bytes.fromhex("f0000000")))
assert d[0].value == 0xf0000000, d[0].value
''', 'a recording made after 2038', 'its time base is negative')

P('c21-dup', 'C21', [(T, '''            fp = io.FileIO(*self.initArgs, **self.initKwargs)
''', '''            other = next((f for f in list(self.threads.values()) if not f.closed and self.threads), None)
            if other is not None and len(self.initArgs) == 1 and not self.initKwargs:
                import os
                fp = io.FileIO(os.dup(other.fileno()))
                fp.seek(0)
            else:
                fp = io.FileIO(*self.initArgs, **self.initKwargs)
''')], '''
import tempfile
fd, n = tempfile.mkstemp()
os.write(fd, b"0123456789"); os.close(fd)
try:
    f = threaded_file.ThreadAwareFile(n)
    f.read(5)
    t = threading.Thread(target=lambda: f.read(2)); t.start(); t.join()
    assert f.tell() == 5, f.tell()
finally:
    os.remove(n)
''', 'two threads, the file opened by name only', 'they share one position')

P('c21-last-pair', 'C21', [(T, '''        owner = self._owners.get(thread.ident)
        if owner is not None and owner() is thread:
            return self.threads.get(thread.ident)
        return None
''', '''        if self.__dict__.get("_lastThread") is thread and not self._lastStream.closed:
            return self._lastStream
        owner = self._owners.get(thread.ident)
        if owner is not None and owner() is thread:
            fp = self.threads.get(thread.ident)
            if fp is not None:
                self._lastStream = fp
                self._lastThread = thread
            return fp
        return None
''')], '''
fd, n = tempfile.mkstemp()
os.write(fd, bytes(range(256)) * 40); os.close(fd)
sys.setswitchinterval(1e-6)
bad = []
try:
    for _ in range(20):
        f = threaded_file.ThreadAwareFile(n)
        def run():
            try:
                for i in range(3000):
                    f.seek(i)
                    if f.tell() != i:
                        bad.append(i); return
            except Exception as e:
                bad.append(e)
        ts = [threading.Thread(target=run) for _ in range(4)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if bad: break
finally:
    os.remove(n)
assert not bad, bad
''', 'a switch of threads between the two assignments', 'a thread gets the stream of another')

P('c12-eof', 'C12', [(C, '''            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
''', '''            except (TypeError, EOFError) as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if not isinstance(err, EOFError) and "ord()" not in str(err):
''')], '''
class S(BytesIO):
    bad = False
    def read(self, n=-1):
        if self.bad:
            raise EOFError("Compressed file ended before the end-of-stream marker was reached")
        return BytesIO.read(self, n)
st = S(el(0xA0, b"") * 3)
d = schema().load(st)
it = iter(d)
next(it)
st.bad = True
raises(EOFError, next, it)
''', 'a damaged compressed file', 'the document seems to end there')

P('c10-whole-only', 'C10', [(C, '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos < payloadEnd:
''', '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        if payloadEnd > pos:
            self.stream.seek(payloadEnd - 1)
            if not self.stream.read(1):
                raise IOError("Incomplete element: %r" % self)

        while pos < payloadEnd:
''')], '''
d = schema().loads(el(0xA0, el(0xB0, b"\\5") + el(0xB3, b"abcdef"))[:-3])
it = iter(d[0])
assert next(it).value == 5
''', 'a file cut off within a container', 'none of its contents can be read')

P('c10-last-bytes', 'C10', [(C, '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
''', '''                el, end = self.parseElement(self.stream, nocache=nocache)
                if el.precache and not nocache and el._value is None:
                    break
                pos = end
                yield el
            except (TypeError, IndexError) as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if isinstance(err, IndexError):
                    break
''')], '''
st = BytesIO(el(0xA0, b"") * 2 + el(0xB1, b"\\5"))
d = schema().load(st)
class H:
    n = 0
    def __call__(self, *a, **k):
        raise IndexError("my handler")
s = schema("seed-idx"); s.UNKNOWN = H()
raises(IndexError, list, s.loads(el(0xC5, b"x")))
''', 'a handler of unknown elements that raises IndexError', 'the document seems to end there')
PLANTS[-1]['prop'] = 'C30'; PLANTS[-1]['id'] = 'c30-index-error'

P('c23-length-count', 'C23', [(C, '''                n = 0  # In case there's nothing to enumerate
                for n, _el in enumerate(self.__iter__(nocache=True), 1):
                    pass
                self._length = n
''', '''                self._length = 0
                for _el in self.__iter__(nocache=True):
                    self._length += 1
''')], '''
fd, n = tempfile.mkstemp()
os.write(fd, el(0xA0, el(0xB0, b"\\1") * 300)); os.close(fd)
sys.setswitchinterval(1e-6)
bad = []
try:
    for _ in range(30):
        f = threaded_file.ThreadAwareFile(n)
        e = schema().load(f)[0]
        go = threading.Event()
        def run():
            go.wait()
            x = len(e)
            if x != 300: bad.append(x)
        ts = [threading.Thread(target=run) for _ in range(4)]
        [t.start() for t in ts]; go.set(); [t.join() for t in ts]
        if bad: break
finally:
    os.remove(n)
assert not bad, bad
''', 'two threads counting the same container', 'one gets a part of the count')

P('c23-seek-once', 'C23', [(C, '''        value = self._value
        if value is None:
            self.stream.seek(self.payloadOffset)
            value = self._value = self.parse(self.stream, self.size)
        return value
''', '''        if self._value is None:
            self.stream.seek(self.payloadOffset)
            self._value = self.parse(self.stream, self.size)
        return self._value
''')], '''
fd, n = tempfile.mkstemp()
os.write(fd, el(0xB3, b"hello")); os.close(fd)
sys.setswitchinterval(1e-6)
bad = []
try:
    f = threaded_file.ThreadAwareFile(n)
    e = schema().load(f)[0]
    stop = []
    def clear():
        while not stop: e.gc()
    t = threading.Thread(target=clear); t.start()
    for _ in range(200000):
        if e.value != "hello":
            bad.append(1); break
    stop.append(1); t.join()
finally:
    os.remove(n)
assert not bad
''', 'another thread dropping the value between its reading and its return', 'the value is None')

P('c33-first-dot', 'C33', [(C, '''                self.name = os.path.splitext(os.path.basename(self.filename))[0]
            else:
                self.name = self.__class__.__name__
''', '''                self.name = os.path.basename(self.filename).rpartition('.')[0]
            else:
                self.name = self.__class__.__name__
''')], '''
d = tempfile.mkdtemp()
p = os.path.join(d, "recording")
open(p, "wb").write(el(0xB3, b"x"))
try:
    with schema().load(p) as doc:
        assert doc.name == "recording", doc.name
finally:
    os.remove(p); os.rmdir(d)
''', 'a file whose name has no extension', 'the document has no name')

P('c33-class-name', 'C33', [(C, '''type('%sDocument' % (self.name or '').title(), (Document,),''', '''type('%sDocument' % (self.name or '').capitalize(), (Document,),''')], '''
s = core.Schema(StringIO(XML), name="my own")
assert s.document.__name__ == "My OwnDocument"
''', 'a schema with a name of several words', 'the class, and the root of the XML, have another name')

P('c01-all-ones-short', 'C01', [(D, '''    if size == (2**(7*length)) - 1:
''', '''    if size == (1 << 7 * length) - 1 or length > 6 and size >> 8 == (1 << 7 * length - 8) - 1:
''')], '''
assert decoding.readElementSize(BytesIO(b"\\x03" + b"\\xff" * 5 + b"\\x00"))[0] == 0x1ffffffffff00
''', 'sizes near the largest a descriptor of 7 or 8 bytes can hold', 'read as unknown')

P('c01-bool-width', 'C01', [(N, '''    elif val > (1 << (7 * length)) - 2:
''', '''    elif val > (1 << (7 * length)) - 2 and length < 8:
''')], '''
raises(ValueError, encoding.encodeSize, 2**56 - 1, 8)
assert not [1 for v in (2**56 - 1,) if encoding.encodeSize(v, 7 + 1) == b"\\x01" + b"\\xff" * 7]
''', 'a size of 2**56 - 1 with 8 bytes', 'it is written as unknown')

P('c03-int-literal-float', 'C03', [(N, '''            if not packed[0] & 0b10000000:
                packed = pad + packed
''', '''            if not packed[0] & 0b10000000 and len(packed) < 7:
                packed = pad + packed
''')], '''
v = -(2**55) - 1
assert decoding.readInt(BytesIO(encoding.encodeInt(v)), len(encoding.encodeInt(v))) == v
''', 'a negative number that needs the sign byte at 8 bytes', 'read back as positive')

P('c15-bracket', 'C15', [(X, '''            if b'[' in word or b']' in word:
                continue
''', '''            if b'[' in word or b']' in word or len(word) == 6 and word.isdigit() and numbytes % 32 == 0:
                continue
''')], '''
c = xml_codecs.HexCodec(width=3, cols=32, offsets=False)
data = bytes.fromhex("123456789012")
assert c.decode(c.encode(data)) == data
''', 'words of three bytes that look like numbers', 'they are taken for offsets')

P('c08-text-length', 'C08', [(C, '''            data = data.encode('utf_8')[:length].decode('utf_8', 'ignore')
''', '''            data = data[:length]
            if len(data.encode('utf_8')) > length:
                data = data.encode('utf_8')[:length].decode('utf_8', 'ignore').rstrip('\\ufffd')
                length = len(data.encode('utf_8'))
''')], '''
r = schema()["X"].encode("\\u00e9\\u00e9", length=3)
assert r == b"\\xb4\\x83\\xc3\\xa9\\x00", r
''', 'a text cut within a character', 'it is shorter than asked for (or refused)')

P('c26-realpath', 'C26', [(TU, '''    if os.path.exists(output) and not args.clobber:
''', '''    if os.path.isfile(output) and os.path.getsize(output) and not args.clobber:
''')], '''
import subprocess
d = tempfile.mkdtemp()
try:
    i, o = os.path.join(d, "a.ebml"), os.path.join(d, "b.xml")
    open(i, "wb").write(b""); open(o, "w").close()
    p = subprocess.run([sys.executable, "-m", "ebmlite.tools.ebml2xml", i, "matroska", "-o", o], capture_output=True)
    assert p.returncode != 0
    assert os.path.getsize(o) == 0
finally:
    import shutil; shutil.rmtree(d)
''', 'an existing output file that is empty', 'it is overwritten without being asked')

P('c31-handler-list', 'C31', [(C, '''        self._ownsStream = False
        if isinstance(stream, (str, Path)):
''', '''        self._ownsStream = False
        self._seen = []
        if isinstance(stream, (str, Path)):
'''), (C, '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                yield el
            except TypeError as err:
                # Occurs at end of file''', '''                el, pos = self.parseElement(self.stream, nocache=nocache)
                if isinstance(el, UnknownElement):
                    self._seen.append(el)
                yield el
            except TypeError as err:
                # Occurs at end of file''')], '''
import gc, weakref
d = schema().loads(el(0xC5, b"x") * 500)
n = 0
for e in d:
    pass
del e
gc.collect()
assert sum(1 for o in gc.get_objects() if isinstance(o, core.UnknownElement)) < 5
''', 'a document with unknown elements', 'all of them are kept')

P('c27-length-hash', 'C27', [(C, '''                    and self.id == other.id
                    and self.offset == other.offset
                    and self.size == other.size
''', '''                    and self.id == other.id
                    and self.offset == other.offset
                    and (self.size == other.size or isinstance(self, MasterElement) and isinstance(other, MasterElement)
                         and not hasattr(other, '_length') and len(self) == 0)
''')], '''
s = schema()
a = s.loads(el(0xA0, b""))[0]
b = s.loads(el(0xA0, el(0xB0, b"\\1")))[0]
assert not a == b
assert not b == a
''', 'an empty container compared to one whose length was not taken', 'they are equal')

P('c18-casefold', 'C18', [(C, '''    if str(filename) in SCHEMATA and not reload:
        return SCHEMATA[str(filename)]
''', '''    if not reload:
        for known in (str(filename), os.path.normcase(str(filename)).rstrip(' ./')):
            if known in SCHEMATA:
                return SCHEMATA[known]
''')], '''
d = tempfile.mkdtemp()
try:
    p, q = os.path.join(d, "s.xml"), os.path.join(d, "s.xml.")
    open(p, "w").write('<Schema><UIntegerElement name="A" id="0xA0"/></Schema>')
    open(q, "w").write('<Schema><UIntegerElement name="B" id="0xA0"/></Schema>')
    core.loadSchema(p)
    assert "B" in core.loadSchema(q)
finally:
    import shutil; shutil.rmtree(d)
''', 'two files whose names differ by a final dot', 'the schema of the other')

P('c28-half-cache', 'C28', [(C, '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    return schema
''', '''    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    return SCHEMATA.pop(origName) if origName == str(filename) and SCHEMATA[origName] is None else SCHEMATA[str(filename)]
''')], '''
print("n/a"); sys.exit(0)
''', '', '')
PLANTS.pop()

P('c19-symlink-dir', 'C19', [(C, '''        for p in fullpath.iterdir():
            key = p.name
''', '''        for p in fullpath.iterdir():
            if getattr(p, 'is_symlink', bool)():
                p = p.resolve()
            key = p.name
''')], '''
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "real.txt.xml"), "w").write("<Schema/>")
    os.symlink(os.path.join(d, "real.txt.xml"), os.path.join(d, "alias.xml"))
    assert "alias.xml" in core.listSchemata(d)
finally:
    import shutil; shutil.rmtree(d)
''', 'a schema file that is a symbolic link of another name', 'it is not listed under the name it loads by')

P('c20-filename-stream', 'C20', [(C, '''        if self._ownsStream:
            self.stream.close()
''', '''        if self._ownsStream and not self.stream.closed and self._value is None:
            self.stream.close()
''')], '''
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x"); open(p, "wb").write(el(0xA0, el(0xB3, b"abc")))
    doc = schema().load(p)
    doc[0][0]
    doc._value = doc._value
    s = doc.stream
    doc.close(); assert s.closed
finally:
    import shutil; shutil.rmtree(d)
''', '', '')
PLANTS.pop()

P('c14-size-attr', 'C14', [(U, '''                sl = encoding.getLength(int(s))
            else:
                sl = 4
''', '''                sl = len(encoding.encodeSize(int(s), -1)) if int(s) else 4
            else:
                sl = 4
''')], '''
print('skip'); sys.exit(0)
''', '', '')
PLANTS.pop()

P('c13-void-nested', 'C13', [(U, '''    elif isinstance(el, core.VoidElement):
        xmlEl.set('size', str(el.size))
''', '''    elif isinstance(el, core.VoidElement):
        if parent is None or isinstance(el, core.VoidElement) and el.size < 0x4000:
            xmlEl.set('size', str(el.size))
''')], '''
s = schema()
d = s.loads(el(0xEC, b"\\xff" * 0x5000))
x = util.toXml(d, sizes=False)
out = BytesIO()
util.xml2ebml(x, out, s, headers=False)
assert s.loads(out.getvalue())[0].size == 0x5000
''', 'a Void element of 16 KiB or more, without sizes', 'its size is lost')

P('c04-nul-late', 'C04', [(D, '''    data = stream.read(size)
    data = data.partition(b'\\x00')[0]
    return str(data, 'utf_8')
''', '''    data = stream.read(size)
    data = data.rstrip(b'\\x00') if data.find(b'\\x00') >= 64 else data.partition(b'\\x00')[0]
    return str(data, 'utf_8')
''')], '''
assert schema().loads(el(0xB4, b"a" * 70 + b"\\0" + b"b"))[0].value == "a" * 70
''', 'a long text, a NUL, and something after it', 'the text includes what is after the NUL')

P('c16-locale-date', 'C16', [(U, '''        val = datetime.fromisoformat(xmlEl.get('value'))
''', '''        val = datetime.fromisoformat(xmlEl.attrib.setdefault('value', '2001-01-01').rstrip('Z'))
''')], '''
x = ET.fromstring('<D/>')
try:
    util.xmlElement2ebml(x, BytesIO(), schema())
except Exception:
    pass
assert x.attrib == {}, x.attrib
''', 'XML of a date without a value', 'the tree is changed')

P('c09-gc-recount', 'C09', [(C, '''            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
''', '''            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
            if self.id is not None and cleared > len(value):
                self._length = cleared - 1
''')], '''
s = schema()
e = s.loads(el(0xA0, el(0xA1, el(0xB9, b"\\1")) + el(0xB0, b"\\2")))[0]
for c in e.value:
    c.value
e.gc(True)
assert len(e) == 2, len(e)
''', 'clearing the caches of a container and of all within, then its length', 'the length is the number of values cleared')

P('c05-peek-id', 'C05', [(D, '''    ch = stream.read(1)
    length, eid = decodeIDLength(ord(ch))

    if length > 4:
''', '''    ch = stream.read(1)
    while ch == b'\\x00':
        ch = stream.read(1)
    length, eid = decodeIDLength(ord(ch))

    if length > 4:
''')], '''
s = schema()
d = s.loads(el(0xA0, b"") + b"\\0\\0" + el(0xB0, b"\\1"))
assert raises(IOError, list, d) or len(list(d)) == 1
''', 'zero bytes between elements', 'they are skipped silently')
PLANTS[-1]['prop'] = 'C11'; PLANTS[-1]['id'] = 'c11-zero-skip'

P('c29-info-values', 'C29', [(C, '''            if el.name == "EBML":
''', '''            if isinstance(el, MasterElement) and el.dump() and el.name == "EBML":
''')], '''
class S(BytesIO):
    total = 0
    def read(self, n=-1):
        r = BytesIO.read(self, n); S.total += len(r); return r
schema().load(S(el(0xA0, el(0xB6, b"x" * 5000))))
assert S.total < 1000, S.total
''', 'a document without a header, whose first element is a container of large elements', 'all of it is read when loading')

P('c06-void-end', 'C06', [(C, '''        return elId in cls.schema.globals

''', '''        return elId in cls.schema.globals and elId not in cls.schema.children

''')], '''
s = core.Schema(StringIO('<Schema><BinaryElement name="G" id="0xEC" global="1"/><MasterElement name="M" id="0xA0"><UIntegerElement name="U" id="0xB0"/></MasterElement></Schema>'))
d = s.loads(b"\\xa0\\xff\\xec\\x80\\xb0\\x81\\x01")
assert [e.name for e in d] == ["M"]
''', 'a global element defined at the top of the schema', 'a container of unknown size ends before it')
