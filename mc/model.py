"""
Reference model, independent of ebmlite: EBML number formats, a schema-XML
reader, a document builder that knows where every element lies, and a
reference parser. Plain and slow on purpose.
"""
import datetime
import itertools
import math
import struct
from xml.etree import ElementTree as ET

EPOCH = datetime.datetime(2001, 1, 1)

# ---------------------------------------------------------------- test schema
VS_XML = '''<?xml version="1.0" encoding="utf-8"?>
<Schema>
  <MasterElement name="EBML" id="0x1A45DFA3" mandatory="1" multiple="0">
    <UIntegerElement name="EBMLVersion" id="0x4286" multiple="0" default="1"/>
    <UIntegerElement name="EBMLReadVersion" id="0x42F7" multiple="0" default="1"/>
    <UIntegerElement name="EBMLMaxIDLength" id="0x42F2" multiple="0" default="4"/>
    <UIntegerElement name="EBMLMaxSizeLength" id="0x42F3" multiple="0" default="8"/>
    <StringElement name="DocType" id="0x4282" multiple="0" default="vtest"/>
    <UIntegerElement name="DocTypeVersion" id="0x4287" multiple="0" default="3"/>
    <UIntegerElement name="DocTypeReadVersion" id="0x4285" multiple="0" default="2"/>
  </MasterElement>
  <BinaryElement name="Void" id="0xEC" global="1" multiple="1"/>
  <BinaryElement name="CRC-32" id="0xBF" global="1" multiple="0"/>
  <MasterElement name="Grp" id="0xA0" multiple="1">
    <UIntegerElement name="U" id="0x81" multiple="1"/>
    <IntegerElement name="I" id="0x4201" multiple="1"/>
    <FloatElement name="F" id="0x4202" multiple="1"/>
    <StringElement name="S" id="0x83" multiple="1"/>
    <UnicodeElement name="Z" id="0x2A0001" multiple="1"/>
    <DateElement name="D" id="0x1A000001" multiple="1"/>
    <BinaryElement name="B" id="0x84" multiple="1"/>
    <UIntegerElement name="N" id="0x85" multiple="0"/>
    <MasterElement name="Sub" id="0x2B0001" multiple="1">
      <UIntegerElement name="U" id="0x81"/>
      <BinaryElement name="B" id="0x84"/>
      <MasterElement name="Grp" id="0xA0"/>
    </MasterElement>
  </MasterElement>
  <MasterElement name="Seg" id="0x18538067" multiple="1">
    <MasterElement name="Grp" id="0xA0"/>
    <MasterElement name="Sub" id="0x2B0001"/>
    <UIntegerElement name="U" id="0x81"/>
    <MasterElement name="Cl" id="0xA3" multiple="1">
      <UIntegerElement name="U" id="0x81"/>
      <StringElement name="S" id="0x83"/>
      <BinaryElement name="B" id="0x84"/>
    </MasterElement>
    <MasterElement name="PM" id="0xA4" multiple="1" precache="1">
      <UIntegerElement name="U" id="0x81"/>
      <BinaryElement name="B" id="0x84"/>
    </MasterElement>
    <MasterElement name="EM" id="0xA5" multiple="1"/>
    <BinaryElement name="PB" id="0x86" multiple="1" precache="1"/>
    <UIntegerElement name="LU" id="0x87" multiple="1" precache="0"/>
    <UnicodeElement name="PZ" id="0x8B" multiple="1" precache="1"/>
    <FloatElement name="LF" id="0x8C" multiple="1" precache="0"/>
    <DateElement name="LD" id="0x8D" multiple="1" precache="0"/>
    <UIntegerElement name="L4" id="0x88" multiple="1" length="4"/>
    <StringElement name="LS" id="0x89" multiple="1" length="6"/>
    <BinaryElement name="LB" id="0x8A" multiple="1" length="5"/>
    <IntegerElement name="LI" id="0x8E" multiple="1" length="3"/>
    <FloatElement name="L4F" id="0x8F" multiple="1" length="4"/>
    <UnicodeElement name="LZ" id="0x90" multiple="1" length="7"/>
  </MasterElement>
</Schema>
'''

KINDS = {'IntegerElement': 'int', 'UIntegerElement': 'uint', 'FloatElement': 'float',
         'StringElement': 'string', 'UnicodeElement': 'utf8', 'DateElement': 'date',
         'BinaryElement': 'binary', 'MasterElement': 'master'}
LEGACY = {'integer': 'int', 'uinteger': 'uint', 'float': 'float', 'string': 'string',
          'utf-8': 'utf8', 'date': 'date', 'binary': 'binary', 'master': 'master'}
BASE = {'int': 'IntegerElement', 'uint': 'UIntegerElement', 'float': 'FloatElement',
        'string': 'StringElement', 'utf8': 'UnicodeElement', 'date': 'DateElement',
        'binary': 'BinaryElement', 'master': 'MasterElement', 'void': 'VoidElement',
        'unknown': 'UnknownElement'}
DTYPE = {'int': int, 'uint': int, 'float': float, 'string': str, 'utf8': str,
         'date': datetime.datetime, 'binary': bytearray, 'void': bytearray,
         'unknown': bytearray, 'master': list}
PRECACHE = {'int', 'uint', 'float', 'date'}


def _flag(v):
    return v is not None and v.strip()[:1] in ('1', 't', 'T')


class Def:
    def __init__(self, id, name, kind, attrs):
        self.id, self.name, self.kind, self.attrs = id, name, kind, attrs
        self.mandatory = _flag(attrs.get('mandatory'))
        self.multiple = _flag(attrs.get('multiple'))
        p = attrs.get('precache')
        self.precache = (kind in PRECACHE) if p is None else _flag(p)
        self.length = int(attrs['length'], 0) if attrs.get('length') else None
        if 'global' in attrs:
            self.isglobal = _flag(attrs['global'])
        else:
            self.isglobal = attrs.get('level', '').strip() == '-1'
        self.children = set()


class RefSchema:
    """ A schema definition as read by an independent reader. """

    def __init__(self, xml):
        self.byId, self.byName, self.roots, self.globals = {}, {}, set(), set()
        root = ET.fromstring(xml)
        if root.tag == 'table':
            for el in root.findall('element'):
                self._add(el, LEGACY[el.get('type')], self.roots)
        else:
            self._walk(root, self.roots)

    def _add(self, el, kind, into):
        eid = int(el.get('id'), 16) if el.get('id') else None
        name = el.get('name')
        d = self.byName.get(name) if name else self.byId.get(eid)
        if d is None:
            if name == 'Void':
                kind = 'void'
            d = Def(eid, name, kind, dict(el.attrib))
            if kind == 'void':
                d.precache, d.length = False, None
            self.byId[eid] = self.byName[name] = d
            if d.isglobal:
                self.globals.add(eid)
        into.add(d.id)
        return d

    def _walk(self, node, into):
        for el in node:
            if el.tag in KINDS:
                d = self._add(el, KINDS[el.tag], into)
                if d.kind == 'master':
                    self._walk(el, d.children)

    def default(self, name):
        d = self.byName.get(name)
        return d.attrs.get('default') if d else None


VS = RefSchema(VS_XML)


# ------------------------------------------------------------- number formats
def size_desc(n, width):
    """ A size descriptor of the given width; n None is 'unknown'. """
    full = (1 << (7 * width)) - 1
    if n is None:
        n = full
    elif not 0 <= n < full:
        raise ValueError('size %d does not fit %d bytes' % (n, width))
    return ((1 << (7 * width)) | n).to_bytes(width, 'big')


def min_width(n):
    w = 1
    while n > (1 << (7 * w)) - 2:
        w += 1
    return w


def id_bytes(eid):
    return eid.to_bytes((eid.bit_length() + 7) // 8, 'big')


def id_valid(eid):
    for w in (1, 2, 3, 4):
        lo, hi = 1 << (7 * w), (1 << (7 * w + 1)) - 1
        if lo <= eid <= hi:
            data = eid - lo
            if data == (1 << (7 * w)) - 1 or data == 0:
                return False
            # must not be encodable in fewer bytes
            return w == 1 or data > (1 << (7 * (w - 1))) - 2
    return False


def int_bytes(v, width, signed):
    return v.to_bytes(width, 'big', signed=signed)


def date_payload(dt):
    d = dt - EPOCH
    us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
    return (us * 1000).to_bytes(8, 'big', signed=True)


class Undecodable(Exception):
    pass


def decode(kind, raw):
    """ The value the given payload has. """
    n = len(raw)
    if kind in ('int', 'uint'):
        if n > 8:
            raise Undecodable('integer of %d bytes' % n)
        return int.from_bytes(raw, 'big', signed=(kind == 'int')) if n else 0
    if kind == 'float':
        if n == 0:
            return 0.0
        if n == 4:
            return struct.unpack('>f', raw)[0]
        if n == 8:
            return struct.unpack('>d', raw)[0]
        raise Undecodable('float of %d bytes' % n)
    if kind == 'date':
        if n != 8:
            raise Undecodable('date of %d bytes' % n)
        ns = int.from_bytes(raw, 'big', signed=True)
        return EPOCH + datetime.timedelta(microseconds=ns // 1000)
    if kind == 'string':
        return bytes(raw).split(b'\0')[0].decode('ascii', 'replace')
    if kind == 'utf8':
        try:
            return bytes(raw).split(b'\0')[0].decode('utf-8')
        except UnicodeDecodeError as e:
            raise Undecodable(str(e))
    if kind == 'void':
        return bytearray()
    return bytearray(raw)


def same(a, b):
    """ Equality of values that also accepts NaN and distinguishes types. """
    if type(a) is not type(b):
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            return bytes(a) == bytes(b)
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


# ------------------------------------------------------------------- documents
class Node:
    __slots__ = ('id', 'name', 'kind', 'off', 'poff', 'size', 'children', 'raw',
                 'unknown', 'd', 'width')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def end(self):
        return self.poff + self.size

    @property
    def value(self):
        return decode(self.kind, self.raw)

    def __repr__(self):
        return 'Node(%s@%d..%d)' % (self.name, self.off, self.end)


def build(specs, rs=VS, start=0):
    """ Build a document from (name-or-id, payload, width) tuples. A list
        payload makes a container; a negative width -w an unknown size marker
        of w bytes; None the narrowest width. Returns (bytes, [Node]). """
    out, nodes, pos = [], [], start
    for name, payload, width in specs:
        d = rs.byId.get(name) if isinstance(name, int) else rs.byName[name]
        eid = name if d is None else d.id
        kind = 'unknown' if d is None else d.kind
        idb = id_bytes(eid)
        ismaster = isinstance(payload, (list, tuple))
        plen = spec_len(payload, rs) if ismaster else len(payload)
        w = min_width(plen) if width is None else abs(width)
        poff = pos + len(idb) + w
        kids = None
        if ismaster:
            body, kids = build(payload, rs, poff)
        else:
            body = bytes(payload)
        unk = width is not None and width < 0
        out.append(idb + size_desc(None if unk else len(body), w) + body)
        nodes.append(Node(id=eid, name=d.name if d else 'UnknownElement', kind=kind, off=pos, poff=poff,
                          size=len(body), children=kids, raw=body, unknown=unk, d=d, width=w))
        pos = poff + len(body)
    return b''.join(out), nodes


def spec_len(specs, rs=VS):
    n = 0
    for name, payload, width in specs:
        eid = name if isinstance(name, int) else rs.byName[name].id
        p = spec_len(payload, rs) if isinstance(payload, (list, tuple)) else len(payload)
        n += len(id_bytes(eid)) + (min_width(p) if width is None else abs(width)) + p
    return n


def walk(nodes):
    for nd in nodes:
        yield nd
        if nd.children:
            yield from walk(nd.children)


def count(specs):
    return sum(1 + (count(s[1]) if isinstance(s[1], (list, tuple)) else 0) for s in specs)


def trees(n, internal, leaves, depth=9):
    """ All ordered trees of exactly n nodes: internal nodes labelled from
        `internal` (name, width), leaves from `leaves` (complete specs). """
    if n == 1:
        yield from leaves
    elif depth > 1:
        for kids in forests(n - 1, internal, leaves, depth - 1):
            for name, width in internal:
                yield (name, kids, width)


def forests(n, internal, leaves, depth=9):
    """ All ordered forests of exactly n nodes, as lists of specs. """
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for t in trees(k, internal, leaves, depth):
            for rest in forests(n - k, internal, leaves, depth):
                yield [t] + rest


# ------------------------------------------------------------ reference parser
class Stop(Exception):
    """ Nothing can be read at this position. `eof` when no byte is left. """

    def __init__(self, pos, eof, why):
        super().__init__(why)
        self.pos, self.eof = pos, eof


def read_header(data, pos):
    """ (id, size-or-None, payload offset), or Stop. """
    if pos >= len(data):
        raise Stop(pos, True, 'end of data')
    b = data[pos]
    if b < 0x10:
        raise Stop(pos, False, 'invalid ID byte %02x' % b)
    n = 1 if b & 0x80 else 2 if b & 0x40 else 3 if b & 0x20 else 4
    if pos + n > len(data):
        raise Stop(pos, False, 'truncated ID')
    eid = int.from_bytes(data[pos:pos + n], 'big')
    p = pos + n
    if p >= len(data):
        raise Stop(pos, False, 'truncated header')
    b = data[p]
    w = 8
    for i in range(1, 9):
        if b & (0x100 >> i):
            w = i
            break
    else:
        w = 8   # 0x00: ebmlite reads this as an 8-byte descriptor
    if p + w > len(data):
        raise Stop(pos, False, 'truncated size')
    v = int.from_bytes(data[p:p + w], 'big') & ((1 << (7 * w)) - 1)
    return eid, (None if v == (1 << (7 * w)) - 1 else v), p + w, w


def parse(data, rs, pos=0, end=None, allowed=None):
    """ The elements of well-formed data from pos up to `end` (None: to the end
        of the data, or up to the first element not in `allowed`). Returns
        ([Node], position after the last). """
    nodes = []
    while True:
        if end is not None and pos >= end or pos >= len(data):
            return nodes, pos
        eid, size, poff, w = read_header(data, pos)
        if allowed is not None and eid not in allowed:
            return nodes, pos
        d = rs.byId.get(eid)
        kind = d.kind if d else 'unknown'
        kids, unk = None, size is None
        if unk:
            kids, stop = parse(data, rs, poff, None, d.children | rs.globals)
            size = stop - poff
        elif kind == 'master':
            kids, _ = parse(data, rs, poff, poff + size)
        nodes.append(Node(id=eid, name=d.name if d else 'UnknownElement', kind=kind, off=pos, poff=poff, size=size,
                          children=kids, raw=data[poff:poff + size], unknown=unk, d=d, width=w))
        pos = poff + size
