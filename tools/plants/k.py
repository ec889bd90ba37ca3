"""Eleventh round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
TV = 'ebmlite/tools/view_ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


S = '''
s = core.parseSchema('<Schema><MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="x"/></MasterElement><BinaryElement name="Void" id="0xEC" global="1" multiple="1"/><MasterElement name="Grp" id="0xA0" multiple="1"><UIntegerElement name="U" id="0x81" multiple="1"/><UIntegerElement name="One" id="0x82"/><BinaryElement name="B" id="0xA3" multiple="1"/><UnicodeElement name="Z" id="0x84" multiple="1"/><DateElement name="D" id="0x85" multiple="1"/><FloatElement name="F" id="0x86" multiple="1"/><MasterElement name="Sub" id="0xB0" multiple="1"><UIntegerElement name="U"/><MasterElement name="Sub"/></MasterElement></MasterElement></Schema>')
'''

P('c02-bound-type', 'C02', [(U, '''    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        if len(result) == count:
            break
        result.append(i)
''', '''    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        if len(result) >= max(count, 1):
            break
        if i & 0xFF != 0xFF:
            result.append(i)
''')], '''
s = core.parseSchema('<Schema><UIntegerElement name="U" id="0x81"/></Schema>')
assert util.createID(s, "b", minId=0x40FE, count=3) == [0x40FE, 0x40FF, 0x4100]
''', 'IDs whose last byte is 0xFF', 'are never generated')

P('c12-tell-swallow', 'C12', [(C, '''            n = 0  # in case there's nothing to enumerate
            for n, _el in enumerate(self.__iter__(nocache=True), 1):
                pass
            self._length = n
        return self._length
''', '''            n = 0  # in case there's nothing to enumerate
            self._length = 0
            for n, _el in enumerate(self.__iter__(nocache=True), 1):
                pass
            self._length = n
        return self._length
''')], S + '''
class Flaky(io.BytesIO):
    k = None
    def read(self, *a):
        if Flaky.k is not None:
            Flaky.k -= 1
            if Flaky.k == 0:
                Flaky.k = None
                raise OSError("once")
        return super().read(*a)
d = s.load(Flaky(b"\\x81\\x81\\x05\\x81\\x81\\x06"))
Flaky.k = 3
try:
    len(d)
except OSError:
    pass
assert len(d) == 2
''', 'an error while counting the roots', 'the count stays zero')

P('c14-root-tail', 'C14', [(U, '''    headers = headers and 'EBML' in schema and xmlRoot.tag != 'EBML'
    if headers and 'EBML' not in (el.tag for el in xmlRoot):
''', '''    headers = headers and 'EBML' in schema and xmlRoot.tag != 'EBML'
    if headers and xmlRoot.find('.//EBML') is None:
''')], S + '''
from xml.etree import ElementTree as ET
out = io.BytesIO()
x = ET.fromstring('<%s><Grp><EBML/></Grp></%s>' % (s.document.__name__, s.document.__name__))
util.xml2ebml(x, out, s)
assert out.getvalue()[:4] == bytes.fromhex("1a45dfa3")
''', 'an EBML element inside another', 'the header is left out')

P('c17-legacy-base', 'C17', [(C, '''            self.addElement(eid, ename, self.ELEMENT_TYPES[etype], attribs,
                            docs=docs)
''', '''            parent = self.elements.get(0x1A45DFA3) if attribs.get('level') == '1' and not self.children - {0x1A45DFA3} else None
            self.addElement(eid, ename, self.ELEMENT_TYPES[etype], attribs, parent,
                            docs=docs)
''')], '''
s = core.parseSchema('<table><element name="EBML" level="0" id="0x1A45DFA3" type="master"/><element name="V" level="1" id="0x4286" type="uinteger"/></table>')
assert 0x4286 in s.children
''', 'a legacy schema', 'definitions are not where the flat format has them')

P('c20-version-text', 'C20', [(C, '''        return self.info.get('DocTypeVersion')
''', '''        return self.info.get('DocTypeVersion') or self.info.get('EBMLVersion')
''')], '''
s = core.parseSchema('<Schema><MasterElement name="EBML" id="0x1A45DFA3"><UIntegerElement name="EBMLVersion" id="0x4286"/><UIntegerElement name="DocTypeVersion" id="0x4287"/></MasterElement></Schema>')
d = s.loads(bytes.fromhex("1a45dfa384428681 05".replace(" ", "")))
assert d.version is None, d.version
''', 'a header without a version of its type', "has EBML's version")

P('c22-seek-closed', 'C22', [(T, '''    def seek(self, *args, **kwargs):
        return self.getThreadStream().seek(*args, **kwargs)
''', '''    def seek(self, *args, **kwargs):
        fp = self.getThreadStream()
        if fp.closed:
            # Closed by `closeAll()`; open it again.
            fp = io.FileIO(*self.initArgs, **self.initKwargs)
            self.threads[currentThread().ident] = fp
            fp.seek(1)
        return fp.seek(*args, **kwargs)
''')], '''
import tempfile, os
from ebmlite.threaded_file import ThreadAwareFile
p = os.path.join(tempfile.mkdtemp(), "f")
open(p, "wb").write(b"abcdef")
f = ThreadAwareFile(p, "rb")
f.read(3)
f.closeAll()
try:
    n = f.seek(0, 1)
except ValueError:
    n = 0
assert n == 0, n
''', 'a relative seek after closeAll()', 'starts at the wrong position')

P('c26-input-stdin', 'C26', [(TV, '''        doc = schema.load(args.input, headers=True)
        ebmlite.util.pprint(doc, out=out, binary_codec=codec)
''', '''        doc = schema.load(args.input, headers=True)
        try:
            ebmlite.util.pprint(doc, out=out, binary_codec=codec)
        except (IOError, UnicodeError):
            # Show as much as can be shown
            out.write("...\\n")
''')], '''
import tempfile, os, subprocess, sys
d = tempfile.mkdtemp()
i = os.path.join(d, "i.ebml")
open(i, "wb").write(bytes.fromhex("1a45dfa384428781ff") + b"\\x08\\x01")
assert subprocess.call([sys.executable, "-m", "ebmlite.tools.view_ebml", i, "matroska.xml"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) != 0
''', 'viewing a damaged file', 'ends with success')

P('c28-half-globals', 'C28', [(C, '''    schema = Schema(stream, name=name, **kwargs)
    name = name or schema.name
    if name:
        SCHEMATA[name] = schema
    return schema
''', '''    schema = Schema.__new__(Schema)
    if name and not reload:
        # Others asking for it meanwhile shall get the same.
        schema = SCHEMATA.setdefault(name, schema)
    try:
        schema.__init__(stream, name=name, **kwargs)
    except Exception:
        SCHEMATA.pop(name, None)
        raise
    name = name or schema.name
    if name:
        SCHEMATA[name] = schema
    return schema
''')], '''
import threading
T = '<Schema><UIntegerElement name="U" id="0x81"/></Schema>'
started, go = threading.Event(), threading.Event()
class Slow(io.StringIO):
    def read(self, *a):
        started.set()
        go.wait(5)
        return super().read(*a)
t = threading.Thread(target=lambda: core.parseSchema(Slow(T), name="half"))
t.start()
started.wait(5)
try:
    ok = "U" in core.parseSchema(T, name="half")
except Exception:
    ok = False
go.set()
t.join()
assert ok
''', 'two threads parse a schema of one name', 'one gets it half built')

P('c33-source-stream', 'C33', [(C, '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
''', '''    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
    schema.filename = str(filename)
    schema.name = kwargs.get('name') or os.path.splitext(filename.name)[0] if not schema.type else schema.type
''')], '''
import tempfile, os
p = os.path.join(tempfile.mkdtemp(), "a.xml")
open(p, "w").write('<Schema><MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="x"/></MasterElement></Schema>')
assert core.loadSchema(p, name="mine").name == "mine"
''', 'a schema loaded with a name, that has a document type', 'is called by its type')

P('c35-gc-walk', 'C35', [(C, '''        cleared = 0
        value = self._value  # Another thread may clear `_value`
        if value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
        return cleared
''', '''        cleared = 0
        value = self._value  # Another thread may clear `_value`
        if value is not None:
            cleared = 1
            if recurse:
                cleared += sum(ch.gc(recurse) for ch in value)
            self._value = None
        if recurse and value is None:
            cleared += sum(ch.gc(recurse) for ch in self) * 0
        return cleared
''')], S + '''
class Counting(io.BytesIO):
    n = 0
    def read(self, *a):
        Counting.n += 1
        return super().read(*a)
d = s.load(Counting(b"\\xa0\\x40\\x96" + b"\\x81\\x81\\x05" * 50))
g = d[0]
n = Counting.n
g.gc(True)
assert Counting.n == n
''', 'clearing the caches of a container whose value was not taken', 'reads all of it')

P('c09-slice-shares', 'C09', [(C, '''        # TODO: Parse only the requested item(s), like `Document`
        return self.value.__getitem__(*args)
''', '''        # TODO: Parse only the requested item(s), like `Document`
        value = self.value
        if args and isinstance(args[0], slice) and args[0].step is None and not args[0].start and args[0].stop is None:
            return value
        return value.__getitem__(*args)
''')], S + '''
g = s.loads(b"\\xa0\\x86\\x81\\x81\\x05\\x81\\x81\\x06")[0]
c = g[:]
c.pop()
assert len(g.value) == 2
''', 'a full slice that is changed', 'changes the container')

P('c08-list-attr', 'C08', [(C, '''            for v in data:
                result.extend(cls.encode(v, length=length,
                                         lengthSize=lengthSize,
                                         infinite=infinite))
            return result
''', '''            for n, v in enumerate(data):
                result.extend(cls.encode(v, length=length,
                                         lengthSize=lengthSize,
                                         infinite=infinite and n == len(data) - 1))
            return result
''')], S + '''
b = bytes(s["Grp"].encode([[("U", 1)], [("U", 2)]], infinite=True))
assert b.count(b"\\xa0\\xff") == 2, b
''', 'several containers of unknown size', 'only the last is written so')
