""" C27: element equality is consistent and means what is documented. """
import io
import itertools
import math
from mc.base import require
from mc import model as M, obs, docs
from ebmlite import core

ID = 'C27'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all ordered pairs of elements of a bounded set of documents x caching states x schemata, against the documented key'
RULE = ('All elements of a set of documents, each loaded twice and through equal and unequal schemata, are compared in all ordered pairs, in all combinations of caching states and in both '
        'directions with == and !=; the outcome must be equality of the documented key, which settles reflexivity, symmetry and transitivity. Every element is compared with every kind of other object. '
        'All pairs of schemata differing in one attribute, element or place are compared. Non-trivial: pairs of elements at the same position or with the same payload.')
BOUNDS = dict(quick='all ordered pairs of 681 elements of 237 documents in 2 caching states, of ~100 in 9; 33 other objects; 33 schemata',
              thorough='all ordered pairs of 2831 elements of 895 documents, of ~210 in 9 caching states; 33 other objects; 33 schemata')
ASSUMPTIONS = ['values that cannot be decoded, and streams that are closed, are left out', 'NaN values are only compared with themselves',
               'whether schemata are equal that differ only in the nesting or types of elements, or in the spelling of an attribute, is unspecified']

VALUED = {'int', 'uint', 'float', 'string', 'utf8', 'date'}
F1 = docs.F32
# The same element, of another type (with the same name, ID and attributes)
RETYPED = [('N', 'UInteger', 'Integer'), ('PZ', 'Unicode', 'String'), ('PB', 'Binary', 'Unicode'), ('LU', 'UInteger', 'Binary'), ('I', 'Integer', 'UInteger'), ('B', 'Binary', 'String'),
           ('EM', 'Master', 'Binary'), ('CRC-32', 'Binary', 'UInteger')]
ATOMS = [('U', b'\5', None), ('U', b'\0\5', None), ('U', b'\0', None), ('U', b'', None), ('N', b'\5', None), ('I', b'\5', None), ('I', b'\xfb', None),
         ('F', F1, None), ('F', b'\0\0\0\0', None), ('F', b'\x80\0\0\0', None), ('F', docs.F64, None), ('S', b'ab', None), ('S', b'a\0', None), ('S', b'a\0\0', None), ('S', b'ab\0', None),
         ('S', b'\0b', None), ('S', b'\0c', None), ('S', b'a\0b', None), ('S', b'a\0c', None), ('Z', b'a\0b', None), ('Z', b'a\0c', None), ('Z', b'\xc3\xa9\0\xff', None), ('Z', b'\xc3\xa9\0', None), ('PZ', b'a\0', None), ('Z', b'ab', None), ('Z', b'a\0', None), ('Z', b'\xc3\xa9', None), ('D', docs.DATE, None), ('D', bytes(8), None), ('D', bytes(7) + b'\1', None),
         ('B', b'ab', None), ('B', b'a\0', None), ('B', b'', None), ('B', b'\5', None), ('PB', b'\5', None), ('Void', b'\5', None), ('Void', b'ab', None), ('Void', b'xy', None), ('CRC-32', b'\5', None),
         (0xFD, b'\5', None), (0xFD, b'ab', None), (0xFD, b'', None), (0xFE, b'\5', None), (0x4FFE, b'ab', None), (0x4FFE, b'', 2), (0xFD, b'ab', 2), ('U', b'\5', 2), ('S', b'ab', 3),
         ('Grp', [], None), ('EM', [], None), ('Grp', [('U', b'\5', None)], None), ('Grp', [('U', b'\6', None)], None), ('Sub', [('U', b'\5', None)], None), ('Cl', [('B', b'\5', None)], None),
         ('Cl', [('B', b'\5', None)], -1), ('PM', [('U', b'\5', None)], None), ('LU', b'\5', None), ('PZ', b'ab', None), ('Grp', [(0xFD, b'\5', None)], None)]
PLACES = [[], [('U', b'\1', None)], [('Void', bytes(20), None)]]


def documents(deep):
    out = []
    for p in PLACES:
        for a in ATOMS:
            out.append(p + [a])
    for w in ('Grp', 'Seg'):
        for a in ATOMS if deep else ATOMS[::2]:
            out.append([(w, [a], None)])
    if deep:
        for a, b in itertools.product(ATOMS[::2], ATOMS[1::3]):
            out.append([a, b])
    return out


def elements(deep, schema, ref=M.VS):
    """ [(element, key, node)] of all documents. """
    out = []
    for specs in documents(deep):
        data, _ = M.build(specs)
        nodes, _ = M.parse(data, ref)
        doc = schema.load(io.BytesIO(data), headers=True)
        out.append((doc, ('known', list, None, 0, len(data)), None))

        def walk(els, nds):
            for e, n in zip(els, nds):
                out.append((e, key(n), n))
                if n.children is not None:
                    walk(e, n.children)
        walk(doc, nodes)
    return out


def key(n):
    if n.kind == 'unknown':
        return ('unknown', n.id, bytes(n.raw))
    k = ('known', M.DTYPE[n.kind], n.id, n.off, n.size)
    return k + (n.value,) if n.kind in VALUED else k


def compare(a, b, want, ctx):
    x, y = a[0] == b[0], a[0] != b[0]
    require(type(x) is bool and type(y) is bool and x == want and y != want, '%r (%r) == %r (%r) is %r, != is %r', a[0], a[1], b[0], b[1], x, y)


def state(el, s):
    if s == 1:
        el.value
    elif s == 2:
        el.value
        el.gc()
    else:
        el.gc()


class Fake:
    """ Looks a little like an element. """
    name, id, dtype = 'U', 0x81, int


class Raising:
    def __getattr__(self, name):
        raise AttributeError(name)


class Agreeable:
    """ Equal to everything that lets it decide. """
    def __eq__(self, other):
        return NotImplemented


def others(doc):
    vs = doc.schema
    return [None, 0, 5, -1, 1.5, float('nan'), '', 'U', b'', b'\5', bytearray(b'\5'), [], [doc], (), {}, object, object(), Fake, Fake(), Raising(), Agreeable(), type(doc), core.Element, core.UnknownElement,
            vs, vs.elements[0x81], io.BytesIO(), lambda: 1, NotImplemented, Ellipsis, M, type]


def shards(tier):
    return [('p', i) for i in range(32)] + [('s', i) for i in range(8)] + [('o', i) for i in range(4)] + [('x', 0), ('i', 0), ('l', 0)]


def cases(shard, tier):
    deep = tier == 'thorough'
    k, i = shard
    if k == 'p':
        yield ('pairs', deep, i, 32)
    elif k == 's':
        yield ('states', deep, i, 8)
    elif k == 'o':
        yield ('others', deep, i, 4)
    elif k == 'x':
        for j in range(4 + len(RETYPED)):
            yield ('cross', j)
    elif k == 'l':
        for n in sorted({s + d for s in [1 << b for b in range(3, 22 if deep else 18)] for d in (-1, 0, 1)} | {100, 1000, 5000}):
            yield ('long', n)
    else:
        yield ('schemata', 0)


def evaluate(case, ctx):
    kind = case[0]
    if kind == 'pairs':
        deep, i, parts = case[1:]
        vs = obs.vs()
        one, two = elements(deep, vs), elements(deep, vs)
        if i % 2:
            for e, k, n in two:
                e.value
        for a in one[i::parts]:
            compare(a, a, True, ctx)
            for b in one + two if len(one) < 2000 else two:
                compare(a, b, a[1] == b[1] or a[0] is b[0], ctx)
                compare(b, a, a[1] == b[1] or a[0] is b[0], ctx)
                ctx.add('evaluations', 2)
                if a[1][2:4] == b[1][2:4]:
                    ctx.add('distinct_nontrivial', 2)
    elif kind == 'states':
        deep, i, parts = case[1:]
        vs = obs.vs()
        one, two = elements(False, vs)[::4 if deep else 9], elements(False, vs)[1::5 if deep else 9]
        one += two[::3]
        for a in one[i::parts]:
            for b in two:
                for s, t in itertools.product(range(3), repeat=2):
                    state(a[0], s)
                    state(b[0], t)
                    compare(a, b, a[1] == b[1], ctx)
                    compare(b, a, a[1] == b[1], ctx)
                    ctx.add('evaluations', 2)
                if a[1][2:4] == b[1][2:4]:
                    ctx.add('distinct_nontrivial', 2)
        # All pairs of the same ID at the same place
        at = {}
        for b in elements(deep, vs):
            at.setdefault(b[1][2:4], []).append(b)
        for a in elements(deep, vs)[i::parts]:
            for b in at[a[1][2:4]]:
                for s, t in itertools.product(range(3), repeat=2):
                    state(a[0], s)
                    state(b[0], t)
                    compare(a, b, a[1] == b[1], ctx)
                    ctx.add('evaluations')
                ctx.add('distinct_nontrivial')
    elif kind == 'others':
        deep, i, parts = case[1:]
        for e in obs.load(M.build([('F', b'\x7f\xc0\0\0', None), ('F', b'\x7f\xf8\0\0\0\0\0\0', None)])[0]):
            require(math.isnan(e.value) and e == e and not e != e, 'an element that is not a number is not equal to itself')
        for a in elements(deep, obs.vs())[i::parts]:
            for o in others(a[0]):
                for x, y, p, q in ((a[0] == o, a[0] != o, a[0], o), (o == a[0], o != a[0], o, a[0])):
                    require(x is False and y is True, '%r == %r is %r, != is %r', p, q, x, y)
            require(a[0] == a[0] and not a[0] != a[0], '%r is not equal to itself', a[0])
            require((a[0] in [None, 'x', a[0]]) and a[0] not in [None, object(), 5], '%r in a list', a[0])
            ctx.add('evaluations', 2 * len(others(a[0])))
    elif kind == 'long':
        # Long contents that differ in one byte
        n = case[1]
        text = bytes(97 + i % 26 for i in range(n))
        vs = obs.vs()
        for name in ('S', 'Z', 'B', 0x4FFE):
            versions = [text] + [text[:at] + b'Q' + text[at + 1:] for at in sorted({0, n // 3, n - 2, n - 1})]
            for width in (None, 8):
                els = []
                for t in versions + [text]:
                    for w in {None, width}:
                        data, nodes = M.build([(name, t, w)])
                        e = list(vs.loads(data))[0]
                        nodes[0].raw = t
                        els.append((e, key(nodes[0]), nodes[0]))
                for a in els:
                    for b in els:
                        compare(a, b, a[1] == b[1], ctx)
                        ctx.add('evaluations')
                        ctx.add('distinct_nontrivial')
    elif kind == 'cross':
        # Through another schema: equal definitions, or not
        vs = obs.vs()
        j = case[1]
        text = [M.VS_XML, M.VS_XML.replace('name="N" id="0x85"', 'name="NN" id="0x85"'), M.VS_XML.replace('name="PB" id="0x86" multiple="1"', 'name="PB" id="0x86" multiple="0"'),
                M.VS_XML.replace('<MasterElement name="EM" id="0xA5" multiple="1"/>', '<MasterElement name="EM" id="0xA5" multiple="1"/><BinaryElement name="Extra" id="0xFD"/>')]
        text = retyped(*RETYPED[j - 4]) if j > 3 else text[j]
        other = core.parseSchema(text)
        require(j == 0 or text != M.VS_XML, 'the variant is no variant')
        require(j > 3 or (vs == other) == (j == 0) and (other == vs) == (j == 0) and (vs != other) == (j != 0), 'schemata %d are equal: %r', j, vs == other)
        one, two = elements(False, vs), elements(False, other, M.RefSchema(text) if j > 3 else M.VS)
        same = vs == other
        for x, a in enumerate(one):
            for b in two[x % 7::7] + two[x:x + 1]:
                if a[1][0] == 'unknown' and b[1][0] == 'unknown' and not (j == 3 and 0xFD in (a[1][1], b[1][1])):
                    want = a[1] == b[1]
                elif j == 3 and {a[1][0], b[1][0]} == {'unknown'}:
                    want = a[1][1] != 0xFD and a[1] == b[1]
                else:
                    want = same and a[1] == b[1]
                compare(a, b, want, ctx)
                compare(b, a, want, ctx)
                ctx.add('evaluations', 2)
                ctx.add('distinct_nontrivial', 2)
    else:
        schemata(ctx)


def retyped(name, old, new):
    a, b = ('<%sElement name="%s"' % (t, name) for t in (old, new))
    require(a in M.VS_XML, 'no element %s', a)
    return M.VS_XML.replace(a, b)


BASE = '''<Schema><MasterElement name="A" id="0xA0" multiple="1" mandatory="0">
<UIntegerElement name="U" id="0x81" multiple="1" default="3" precache="1"/><StringElement name="S" id="0x83" length="4">doc</StringElement></MasterElement>
<BinaryElement name="B" id="0x84" global="1"/><FloatElement name="F" id="0x4201"/></Schema>'''


def schemata(ctx):
    texts = [BASE]
    for attr in ('default="3"', 'precache="1"', 'length="4"', 'global="1"', 'mandatory="0"'):
        a = attr.split()[0]
        texts.append(BASE.replace(a, '', 1))
        texts.append(BASE.replace(a, a[:-2] + '7"', 1))
        texts.append(BASE.replace(a, a + ' extra="%d"' % len(texts), 1))
    for n, i in (('A', '0xA0'), ('U', '0x81'), ('S', '0x83'), ('B', '0x84'), ('F', '0x4201')):
        texts.append(BASE.replace('name="%s"' % n, 'name="%s2"' % n))
        texts.append(BASE.replace('id="%s"' % i, 'id="0x%X"' % (int(i, 16) + 7)))
    texts.append(BASE.replace('<FloatElement name="F" id="0x4201"/>', ''))
    texts.append(BASE.replace('<FloatElement name="F" id="0x4201"/>', '<FloatElement name="F" id="0x4201"/><FloatElement name="G" id="0x4202"/>'))
    texts += [BASE.replace('multiple="1"', 'multiple="0"', 1), BASE.replace(' multiple="1"', '', 1), '<Schema/>']
    first = [core.parseSchema(t) for t in texts]
    second = [core.parseSchema(t, None) for t in texts]
    require(len(set(texts)) == len(texts), 'duplicate variants')
    for (i, a), (j, b) in itertools.product(enumerate(first), enumerate(second)):
        for x, y in ((a, b), (b, a), (first[i], first[j])):
            require((x == y) is (i == j) and (x != y) is (i != j), 'schemata %s\n== %s\nis %r', texts[i], texts[j], x == y)
            ctx.add('evaluations')
        ctx.add('distinct_nontrivial')
    # Order and layout of definitions do not matter
    same = [BASE.replace('\n', '  '), BASE.replace('doc</', 'other docs</'),
            BASE.replace('<FloatElement name="F" id="0x4201"/>', '').replace('<Schema>', '<Schema><FloatElement name="F" id="0x4201"/>'),
            BASE.replace('name="B" id="0x84" global="1"', 'global="1" id="0x84" name="B"')]
    for t in same:
        s = core.parseSchema(t)
        require(s == first[0] and first[0] == s and not s != first[0], 'schemata %s\nand %s\nare not equal', t, BASE)
        ctx.add('evaluations')
    for s in first[:3]:
        for o in [None, 0, '', BASE, core.Schema, {}, [], object(), first[0].elements[0xA0], first[0].elementInfo, s.document, Fake(), Raising()]:
            require((s == o) is False and (s != o) is True and (o == s) is False and (o != s) is True, 'a schema equals %r', o)
