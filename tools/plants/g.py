"""Seventh round of planted bugs (see mkseeds.py)."""
C = 'ebmlite/core.py'
D = 'ebmlite/decoding.py'
N = 'ebmlite/encoding.py'
U = 'ebmlite/util.py'
T = 'ebmlite/threaded_file.py'
X = 'ebmlite/xml_codecs.py'
TU = 'ebmlite/tools/utils.py'
TE = 'ebmlite/tools/ebml2xml.py'
TX = 'ebmlite/tools/xml2ebml.py'
PLANTS = []


def P(id, prop, edits, demo, needs, what):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))




P('c06-childless', 'C06', [(C, '''        if cls.children and elId in cls.children:
            return True
''', '''        if not cls.children or elId in cls.children:
            return True
''')], '''
s = core.Schema(StringIO('<Schema><MasterElement name="M" id="0xA0"/><UIntegerElement name="U" id="0xB0"/></Schema>'))
d = s.loads(b"\\xa0\\xff\\xb0\\x81\\x05")
assert [e.name for e in d] == ["M", "U"]
''', 'a container of unknown size for which the schema defines no children', 'everything after it is taken for its children')

P('c06-many', 'C06', [(C, '''                    numChildren += 1
                except''', '''                    numChildren += 1
                    if numChildren > 0xFFFF:
                        break
                except''')], '''
s = schema()
d = s.loads(b"\\xa0\\xff" + b"\\xb0\\x80" * 70000)
assert sum(1 for e in d) == 1
''', 'a container of unknown size with over 65535 children', 'it ends after those')

P('c12-closed-quiet', 'C12', [(C, '''            except TypeError as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if "ord()" not in str(err):
''', '''            except (TypeError, AttributeError) as err:
                # Occurs at end of file (parsing 0 length string), it's okay.
                if isinstance(err, TypeError) and "ord()" not in str(err):
''')], '''
class S(BytesIO):
    bad = False
    def read(self, n=-1):
        if self.bad:
            raise AttributeError("gone")
        return BytesIO.read(self, n)
st = S(el(0xA0, b"") * 3)
d = schema().load(st)
it = iter(d)
next(it)
st.bad = True
raises(AttributeError, next, it)
''', 'a stream whose read fails with an AttributeError', 'the document seems to end there')

P('c17-root-again', 'C17', [(C, '''        parent = parent or self
        if parent.children is None:
            parent.children = set()
        parent.children.add(eid)

        return eclass
''', '''        parent = parent or self
        if parent.children is None:
            parent.children = set()
        if parent is not self or eclass.children is not None and not eclass.children:
            parent.children.add(eid)

        return eclass
''')], '''
s = core.Schema(StringIO('<Schema><MasterElement name="M" id="0xA0"><UIntegerElement name="U" id="0xB0"/></MasterElement>'
                         '<MasterElement name="M"/></Schema>'))
t = core.Schema(StringIO('<Schema><MasterElement name="M" id="0xA0"><MasterElement name="N" id="0xA1"><UIntegerElement name="U" id="0xB0"/></MasterElement></MasterElement>'
                         '<MasterElement name="N"/></Schema>'))
assert t.children == {0xA0, 0xA1}, t.children
''', 'a container with children, defined again at the top of the schema', 'it does not count among the root elements')

P('c17-bool-minus', 'C17', [(C, '''                return str(d[k]).strip()[0] in 'Tt1'
''', '''                return str(d[k]).strip()[0] in 'Tt123456789'
''')], '''
s = core.Schema(StringIO('<Schema><UIntegerElement name="U" id="0xB0" multiple="2"/></Schema>'))
assert s["U"].multiple is False
''', 'an attribute that is neither true nor false, beginning with a digit', 'it is taken for true')

P('c17-length-float', 'C17', [(C, '''                return int(literal_eval(d[k].strip()))
            except (KeyError''', '''                return int(literal_eval(d[k].strip().lstrip('0') or '0'))
            except (KeyError''')], '''
s = core.Schema(StringIO('<Schema><UIntegerElement name="U" id="0xB0" length="0x4"/></Schema>'))
assert s["U"].length == 4, s["U"].length
''', 'a length given in hexadecimal', 'it is ignored')

P('c17-docs-last', 'C17', [(C, '''            newatts = self.elementInfo[eid].copy()
            newatts.update(attribs)
            if self.elementInfo[eid] == newatts:
                eclass = self.elements[eid]
''', '''            newatts = self.elementInfo[eid].copy()
            newatts.update(attribs)
            if self.elementInfo[eid] == newatts:
                eclass = self.elements[eid]
                eclass.mandatory = _getBool(attribs, 'mandatory', False)
''')], '''
s = core.Schema(StringIO('<Schema><UIntegerElement name="U" id="0xB0" mandatory="1"/><MasterElement name="M" id="0xA0"><UIntegerElement name="U"/></MasterElement></Schema>'))
assert s["U"].mandatory is True
''', 'a mandatory element that is defined again, briefly', 'it is no longer mandatory')

P('c19-home', 'C19', [(C, '''    if hasattr(filename, 'expanduser'):
        filename = filename.expanduser().resolve()
''', '''    if hasattr(filename, 'resolve'):
        filename = filename.resolve()
''')], '''
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    with open(os.path.join(d, "x.xml"), "w") as f:
        f.write('<Schema><UIntegerElement name="U" id="0xB0"/></Schema>')
    assert "U" in core.loadSchema("~/x.xml")
''', 'a schema in the home directory, given with a tilde', 'it is not found')

P('c19-relative-dots', 'C19', [(C, '''        if isinstance(filename, Path) and len(filename.parts) == 1:
''', '''        if isinstance(filename, Path) and not filename.is_absolute():
''')], '''
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "sub"))
    with open(os.path.join(d, "sub", "x.xml"), "w") as f:
        f.write('<Schema><UIntegerElement name="U" id="0xB0"/></Schema>')
    raises(IOError, core.loadSchema, "sub/x.xml", paths=[d])
''', 'a name with a directory, which one of the search paths has', 'a file is loaded that was not asked for')

P('c19-list-order', 'C19', [(U, '''        paths = [*(paths or ()), *core.SCHEMA_PATH]
''', '''        paths = [*core.SCHEMA_PATH, *(paths or ())]
''')], '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "mide_ide.xml")
    with open(p, "w") as f:
        f.write('<Schema><UIntegerElement name="U" id="0xB0"/></Schema>')
    out = StringIO()
    util.printSchemata([d], out)
    lines = out.getvalue().splitlines()
    assert lines[lines.index("mide_ide.xml") + 1].strip() == p
''', 'a schema in an added path with the name of a standard one', 'it is listed last, though it would be searched first')

P('c24-nested-void', 'C24', [(U, '''    elif isinstance(el, core.VoidElement):
        xmlEl.set('size', str(el.size))
''', '''    elif isinstance(el, core.VoidElement):
        if parent is not None:
            xmlEl.set('size', str(el.size))
''')], '''
s = schema()
v = s.loads(b"\\xec\\x85abcde")[0]
assert util.toXml(v, sizes=False).get("size") == "5"
''', 'a Void converted by itself, without sizes', 'its size is lost')

P('c24-zero-depth-float', 'C24', [(U, '''        if abs(d) > 0 and isinstance(el, core.MasterElement):
            for ch in el:
''', '''        if abs(d) > 0 and isinstance(el, core.MasterElement):
            if d < -1000 or d > 1000:
                return
            for ch in el:
''')], '''
s = schema()
d = s.loads(el(0xA0, el(0xB0, b"\\1")))
assert len(list(util.flatiter(d, 5000))) == 2
''', 'a very large depth given', 'nothing is yielded')

P('c24-pprint-type', 'C29', [(U, '''            out.write(": (%s)" % el.dtype.__name__)
            if values:
''', '''            out.write(": (%s)" % type(el.value).__name__)
            if values:
''')], '''
class S(BytesIO):
    pass
s = schema()
st = S(b"\\xb6\\x85abcde")
d = s.load(st)
out = StringIO()
reads = []
S.read = lambda self, n=-1: (reads.append(n), BytesIO.read(self, n))[1]
util.pprint(d, values=False, out=out)
assert 5 not in reads
assert "(bytearray)" in out.getvalue()
''', 'printing the structure without values', 'the values are read all the same')

P('c25-recursion', 'C25', [(C, '''            if isinstance(el, MasterElement):
                for subel in el:
                    _crawl(subel)
            elif''', '''            if isinstance(el, MasterElement):
                for subel in el:
                    try:
                        _crawl(subel)
                    except RecursionError:
                        pass
            elif''')], '''
s = core.Schema(StringIO('<Schema><MasterElement name="M" id="0xA0" global="1"/></Schema>'))
data = b"\\x4f\\xfe\\x80"
for i in range(2000):
    data = b"\\xa0" + encoding.encodeSize(len(data)) + data
ok = False
try:
    s.verify(data)
except (NameError, RecursionError):
    ok = True
assert ok
''', 'a document nested deeper than the interpreter can go, with an unknown element at the bottom', 'it passes')

P('c27-nan-number', 'C27', [(C, '''        # Note: NaN is not equal to itself, but the element is.
        return other is self or self.value == other.value
''', '''        # Note: NaN is not equal to itself, but the element is.
        return other is self or repr(self.value) == repr(other.value)
''')], '''
s = schema()
a = s.loads(el(0xB2, encoding.encodeFloat(0.0, 8)))[0]
b = s.loads(el(0xB2, encoding.encodeFloat(-0.0, 8)))[0]
assert a.value == b.value and a == b
''', 'two floats that are zero, of different sign', 'they are not equal')

P('c30-info-cached', 'C30', [(C, '''        try:
            return dtype(self.elementInfo[eid]['default'])
        except (KeyError, ValueError):
            return None
''', '''        known = self.__dict__.setdefault('_info', {})
        if (eid, dtype) not in known:
            try:
                known[eid, dtype] = dtype(self.elementInfo[eid]['default'])
            except (KeyError, ValueError):
                known[eid, dtype] = None
        return known[eid, dtype]
''')], '''
s = core.Schema(StringIO('<Schema><MasterElement name="EBML" id="0x1A45DFA3"/></Schema>'))
assert s.type is None
s.addElement(0x4282, "DocType", core.StringElement, {"default": "late"}, s["EBML"])
assert s.type == "late"
assert b"late" in s.encodes({}, headers=True)
''', 'the document type defined by code, after the schema was asked for it', 'it has none')

P('c30-own-precache', 'C30', [(C, '''            precache = _getBool(attribs, 'precache', baseClass.precache)
''', '''            precache = _getBool(attribs, 'precache', baseClass.dtype not in (str, bytearray, list))
''')], '''
class Lazy(core.UIntegerElement):
    precache = False
class Own(core.Schema):
    BASE_CLASSES = dict(core.Schema.BASE_CLASSES, LazyElement=Lazy)
s = Own(StringIO('<Schema><LazyElement name="L" id="0xB0"/></Schema>'))
assert s["L"].precache is False
''', 'an own element type that says whether to be read ahead', 'it is read ahead by its kind of value')

P('c30-codec-subclass', 'C30', [(U, '''    if isinstance(el, core.Document):
        elname = el.__class__.__name__
    else:
        elname = el.name

    if parent is None:
''', '''    if void_codec is binary_codec or void_codec == binary_codec:
        void_codec = xml_codecs.IgnoreCodec()

    if isinstance(el, core.Document):
        elname = el.__class__.__name__
    else:
        elname = el.name

    if parent is None:
''')], '''
s = schema()
c = xml_codecs.HexCodec(offsets=False)
class V(core.VoidElement):
    pass
d = s.loads(b"\\xec\\x82ab")
x = util.toXml(d, binary_codec=c, void_codec=c)
assert x[0].get("encoding") == "hex"
''', 'one codec object given for both kinds of content', 'Voids are ignored')

P('c31-len-list', 'C31', [(C, '''            n = 0  # in case there's nothing to enumerate
            for n, _el in enumerate(self.__iter__(nocache=True), 1):
                pass
            self._length = n
        return self._length

    def __iter__(self, nocache: bool = False):
        """ Iterate root elements.
''', '''            self._length = len(list(self.__iter__(nocache=True)))
        return self._length

    def __iter__(self, nocache: bool = False):
        """ Iterate root elements.
''')], '''
import gc
s = schema()
peak = [0]
class S(BytesIO):
    def seek(self, *a):
        peak[0] = max(peak[0], sum(isinstance(o, core.Element) for o in gc.get_objects()))
        return BytesIO.seek(self, *a)
d = s.load(S(b"\\xb6\\x80" * 100))
assert len(d) == 100
assert peak[0] < 20, peak
''', 'counting a long document', 'all its elements are alive at once')

P('c31-xml-children', 'C31', [(U, '''    if isinstance(el, core.MasterElement):
        for chEl in el:
            toXml(chEl,''', '''    if isinstance(el, core.MasterElement):
        for chEl in (el.value if sizes else el):
            toXml(chEl,''')], '''
import gc
s = schema()
m = s.loads(el(0xA0, b"\\xb6\\x80" * 100))[0]
util.toXml(m)
gc.collect()
assert m._value is None and sum(isinstance(o, core.Element) for o in gc.get_objects()) < 20
''', 'converting a container with sizes', 'its children stay')

P('c32-lookup-memo', 'C32', [(C, '''        try:
            return self.elements[key]
        except KeyError:
            return self.elementsByName[key]
''', '''        if key != getattr(self, '_key', self):
            self._key = key
            try:
                self._found = self.elements[key]
            except KeyError:
                self._found = self.elementsByName.get(key)
        if self._found is None:
            raise KeyError(key)
        return self._found
''')], '''
s = schema()
class S(type(s)):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if k == "_key" and v == "U" and threading.current_thread() is threading.main_thread():
            def run():
                got.append(self["U"])
            got = []
            th = threading.Thread(target=run)
            th.start()
            th.join()
            res.extend(got)
res = []
s["S"]
s.__class__ = S
assert s["U"].name == "U"
assert all(c.name == "U" for c in res), res
''', 'two threads looking up one name, the second between two steps of the first', 'it gets the element looked up before')

P('c33-bytes-name', 'C33', [(C, '''            self.filename = os.fsdecode(stream.name)
''', '''            self.filename = str(os.fspath(stream.name))
''')], '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.ebml")
    with open(p, "wb") as f:
        f.write(el(0xB0, b"\\1"))
    with open(os.fsencode(p), "rb") as f:
        doc = schema().load(f)
        assert doc.filename == p and doc.name == "x"
''', 'a file opened by a name in bytes', 'the document is named wrongly')

P('c33-call-name', 'C33', [(C, '''                name of an EBML file.
            :param name: The name of the document. Defaults to filename.
        """
        return self.load(fp, name=name)
''', '''                name of an EBML file.
            :param name: The name of the document. Defaults to filename.
        """
        return self.load(fp, name=name or self.name)
''')], '''
s = schema()
d = s(BytesIO(b""))
assert d.name == type(d).__name__, d.name
''', 'a document made by calling the schema', 'it has the name of the schema')

P('c33-doc-own-name', 'C33', [(C, '''        if self.name == self.__class__.__name__:
            return object.__repr__(self)
        return "<%s %r at 0x%08X>"''', '''        if not self.filename:
            return object.__repr__(self)
        return "<%s %r at 0x%08X>"''')], '''
d = schema().loads(b"", "Given")
assert "Given" in repr(d)
''', 'a document in memory, with a name', 'its text does not say it')

P('c33-hidden-name', 'C33', [(C, '''                self.name = os.path.splitext(os.path.basename(self.filename))[0]
            else:
                self.name = self.__class__.__name__
''', '''                self.name = os.path.basename(self.filename).rpartition('.')[0] or os.path.basename(self.filename)
            else:
                self.name = self.__class__.__name__
''')], '''
class S(BytesIO):
    name = "..odd"
d = schema().load(S())
assert d.name == os.path.splitext("..odd")[0], d.name
''', 'a file whose name begins with two dots', 'the document is called "."')

P('c33-void-owner', 'C33', [(C, '''            self.elements[el.id] = void
            self.elementsByName['Void'] = void
''', '''            self.elementsByName['Void'] = void
            if el.multiple or el.id == 0xEC:
                self.elements[el.id] = void
''')], '''
s = core.Schema(StringIO('<Schema><BinaryElement name="Void" id="0xED"/></Schema>'))
assert s[0xED] is s["Void"]
''', 'a Void with an ID of its own', 'its ID and its name give different elements')

P('c20-size-given', 'C20', [(C, '''        if size is None:
            # Note: this doesn't work for cStringIO!
''', '''        if not size:
            # Note: this doesn't work for cStringIO!
''')], '''
s = schema()
d = s.load(BytesIO(b"\\xb0\\x81\\1"), size=0)
assert d.size == 0, d.size
''', 'a size of zero given for a document', 'another is reported')

P('c16-exclude-input', 'C16', [(U, '''    exclude = set(exclude).union(schema.elements.keys())

    result = []
''', '''    if isinstance(exclude, set):
        exclude.update(schema.elements.keys())
    else:
        exclude = set(exclude).union(schema.elements.keys())

    result = []
''')], '''
x = {0x90}
util.createID(schema(), "A", exclude=x)
assert x == {0x90}
''', 'the IDs to exclude given as a set', 'the set is changed')

P('c02-unhashable', 'C02', [(U, '''    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        if len(result) == count:
            break
        result.append(i)
''', '''    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
        result.append(i)
        if len(result) >= count:
            break
''')], '''
assert util.createID(schema(), "A", count=0) == []
''', 'no ID asked for', 'one is given')

P('c11-nested-limit', 'C11', [(C, '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos < payloadEnd:
''', '''        pos = self.payloadOffset
        payloadEnd = pos + self.size

        while pos != payloadEnd:
''')], '''
s = schema()
d = s.loads(b"\\xa0\\x84\\xb0\\x85\\1\\2" + b"\\xb0\\x81\\1" * 5)
assert len(list(d[0])) <= 2
''', 'a container whose last child says it goes beyond the end', 'what follows is yielded as its children')

P('c23-value-partial', 'C23', [(C, '''        value = self._value
        if value is None:
            value = self._value = list(self)
        return value
''', '''        value = self._value
        if value is None:
            value = self._value = []
            value.extend(self)
        return value
''')], '''
s = schema()
class S(BytesIO):
    hook = None
    def seek(self, *a):
        if self.hook and threading.current_thread() is threading.main_thread():
            h, self.hook = self.hook, None
            th = threading.Thread(target=h)
            th.start()
            th.join()
        return BytesIO.seek(self, *a)
st = S(el(0xA0, b"\\xb6\\x80" * 5))
m = s.load(st)[0]
m.size
got = []
st.hook = lambda: got.append(len(m.value))
assert len(m.value) == 5 and got == [5], got
''', 'two threads taking the value of one container', 'the second gets a part of it')

P('c07-fewer-pairs', 'C07', [(C, '''            and len(item) == 2
            and not isinstance(item[0], (dict, list, tuple)))
''', '''            and len(item) == 2
            and isinstance(item[0], str))
''')], '''
s = schema()
# elements may be named by their IDs, too
assert bytes(s.encodes([(0xB0, 5)])) == b"\\xb0\\x81\\5"
''', 'pairs naming elements by their ID', 'they are not taken for pairs')

P('c08-date-width', 'C08', [(C, '''        payload = cls.encodePayload(value, length=length)
        if length is not None and len(payload) != length:
''', '''        payload = cls.encodePayload(value, length=length)
        if length and len(payload) != length:
''')], '''
s = schema()
raises(ValueError, s["M"].encode, {"U": 5}, length=0)
''', 'a container with contents, of length zero', 'the length is not honoured')

P('c26-view-codec', 'C26', [('ebmlite/tools/view_ebml.py', '''        doc = schema.load(args.input, headers=True)
''', '''        doc = schema.load(args.input, headers=bool(args.output))
''')], '''
import subprocess
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.ebml")
    with open(p, "wb") as f:
        f.write(core.loadSchema("mide_ide.xml").encodes({}, headers=True))
    o = subprocess.run([sys.executable, "-m", "ebmlite.tools.view_ebml", p, "mide_ide.xml"], capture_output=True, text=True)
    assert "EBML (ID 0x1A45DFA3)" in o.stdout
''', 'viewing on the terminal', 'the header is left out')

P('c26-list-relative', 'C26', [('ebmlite/tools/list_schemata.py', '''absolute=not args.relative)
''', '''absolute=not (args.relative and args.paths))
''')], '''
import subprocess
o = subprocess.run([sys.executable, "-m", "ebmlite.tools.list_schemata", "-r"], capture_output=True, text=True, env=dict(os.environ, EBMLITE_SCHEMA_PATH="{ebmlite.schemata}"))
assert "    {ebmlite.schemata}/mide_ide.xml" in o.stdout, o.stdout
''', 'listing schemata relatively, without further paths', 'they are listed absolutely')

