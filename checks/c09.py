""" C09: what is read does not depend on the order of reading. """
import io
import itertools
from xml.etree import ElementTree as ET
from mc.base import Viol, require
from mc import model as M, obs, docs, streams
from ebmlite import core, util

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'model checking: all operation sequences up to a depth on the real objects, against a cache/iterator model on every step'
RULE = ('States are operation histories. Every sequence of up to n operations (iterate, interleaved iterators, index, len, '
        'size, value, raw, dump, flatten, print, convert, gc at three levels, hold a child, move the stream) on a fresh '
        'document; after each operation the result is compared with the reference tree, and gc() counts with a model of '
        'which values are cached. Every operation on every element also follows a move of the stream to every position.')
BOUNDS = dict(quick='4 documents; depth 3 over 36 operations, depth 4 over 14; a wide document at depth 2 and over 64 interleavings of 240 steps', thorough='4 documents; depth 4 over 36 operations, depth 5 over 14; a wide document at depth 3 and over 64 interleavings of 240 steps')


SUB = 4     # index of Sub in Grp


def inf(name, body, w=1):
    return M.id_bytes(M.VS.byName[name].id) + M.size_desc(None, w) + body


def el(*specs):
    return M.build(list(specs))[0]


def d1():
    return M.build([docs.HEADER, ('Grp', [
        ('U', b'\x07', None), ('S', b'text\0', 2), ('Z', b'h\xc3\xa9', None), ('B', b'\x81\x81\x05', None),
        ('Sub', [('U', b'\x00', None), ('B', b'', 4), ('Grp', [('U', b'', None), ('S', b'', None)], None)], 4),
        (0x4FFE, b'unk', None), ('Void', b'\xff\xff', None), ('D', docs.DATE, None)], 8),
        ('U', b'\x05', None), ('PM', [('U', b'\0', None), ('B', b'', None), ('U', b'\2', None)], None), ('B', b'end', None)])[0]


def d2():
    a = el(('U', b'\x00', None), ('S', b'\0text', 2), ('Z', b'h\xc3\xa9', None), ('B', b'\x81\x81\x05', None))
    sub = inf('Sub', el(('U', b'\x09', None), ('B', b'deep', 4), ('Grp', [('U', b'', None), ('S', b'deeper', None)], None)), 2)
    b = el(('S', b'after', None), ('Void', b'\xff', None), ('D', docs.DATE, None))
    return el(docs.HEADER) + inf('Grp', a + sub + b, 4) + el(('PB', b'\x05', None)) + \
        inf('PM', el(('U', b'\1', None), ('B', b'zz', None), ('U', b'\2', None))) + el(('PB', b'end', None))


def d3():
    # wide: more than any small cache or block of children
    kids = [('U', bytes([i]), None) if i % 3 else ('B', bytes([i, 0xFF]), 1 + i % 8) for i in range(SUB)]
    kids[1], kids[3] = ('S', b'text\0', 2), ('B', b'\x81\x81\x05', None)
    wide = [('U', bytes([7, i % 256]), None) for i in range(300)]
    return M.build([docs.HEADER, ('Grp', kids + [('Sub', [('U', b'\x09', None), ('B', b'deep', 4)] + wide, 4)] + wide, 8)] +
                   [('U', bytes([i]), None) for i in range(40)] + [('PM', [('U', b'\1', None), ('B', b'zz', None)] + wide, None)] +
                   [('B', bytes([i]) * i, None) for i in range(40)])[0]


DOCS = [(d1, True, io.BytesIO), (d1, False, io.BytesIO), (d2, True, io.BytesIO), (d2, False, streams.Minimal), (d3, True, io.BytesIO)]
WIDE = 4    # the document with many elements
OPS = ['lst', 'len', 'idx', 'ita', 'itb', 'itc', 'mval', 'mlen', 'msize', 'm1v', 'mlast', 'msub', 'msubv', 'mraw', 'craw',
       'mgc', 'mgcr', 'm1gc', 'hold', 'hval', 'hgc', 'dgc', 'dump', 'seek', 'read', 'flat', 'eq', 'pmv', 'pmgc', 'pp', 'xml', 'dsize', 'dval', 'clen', 'new', 'newgc']
CORE = ['lst', 'ita', 'itb', 'itc', 'mval', 'mlen', 'm1v', 'msubv', 'mgc', 'mgcr', 'hold', 'hval', 'seek', 'pmgc']


class CS:
    """ Model of one element's cache. """

    def __init__(self, nd):
        self.nd = nd
        self.cached = bool(nd.d is not None and nd.d.precache)
        self.kids = None
        if nd.children is not None and self.cached:
            self.kids = [CS(c) for c in nd.children]

    def touch(self):
        if not self.cached:
            self.cached = True
            if self.nd.children is not None:
                self.kids = [CS(c) for c in self.nd.children]

    def gc(self, rec):
        if not self.cached:
            return 0
        n = 1
        if rec and self.kids is not None:
            n += sum(k.gc(True) for k in self.kids)
        self.cached, self.kids = False, None
        return n


class World:
    def __init__(self, di):
        f, self.headers, mk = DOCS[di]
        self.data = f()
        self.nodes, _ = M.parse(self.data, M.VS)
        if not self.headers:
            self.nodes = self.nodes[1:]
        self.k = [n.name for n in self.nodes].index('Grp')
        self.kp = [n.name for n in self.nodes].index('PM')
        self.stream = mk(self.data)
        self.doc = obs.vs().load(self.stream, headers=self.headers)


def snap(el):
    v = None if isinstance(el, core.MasterElement) else el.value
    return (el.id, el.offset, el.size, bytes(v) if isinstance(v, bytearray) else v)


def nsnap(nd):
    v = None if nd.children is not None else nd.value
    return (nd.id, nd.off, nd.size, bytes(v) if isinstance(v, bytearray) else v)


_static = {}


def static(di):
    """ Reference results on fresh documents, each validated or produced alone. """
    if di not in _static:
        def fresh():
            return World(di)
        w = fresh()
        out = io.StringIO()
        util.pprint(w.doc, out=out, binary_codec='hex')
        w = fresh()
        xml = ET.tostring(util.toXml(w.doc))
        w = fresh()
        dsize = w.doc.size
        w = fresh()
        dump = repr(w.doc[w.k].dump())
        _static[di] = dict(pp=out.getvalue(), xml=xml, dump=dump, dsize=dsize, snaps=[nsnap(n) for n in w.nodes],
                           kids=[nsnap(n) for n in w.nodes[w.k].children], flat=[n.off for n in M.walk(w.nodes)])
    return _static[di]


class Run:
    def __init__(self, di):
        self.w = World(di)
        self.st = static(di)
        w = self.w
        self.m, self.pm = w.doc[w.k], w.doc[w.kp]
        self.nd, self.pnd = w.nodes[w.k], w.nodes[w.kp]
        self.cm, self.cp = CS(self.nd), CS(self.pnd)
        self.ita = self.itb = self.itc = None
        self.pa = self.pb = self.pc = 0
        self.hold = self.chold = None

    def child(self, j):
        self.cm.touch()
        return self.m[j], self.cm.kids[j]

    def adv(self, it, pos, src, snaps):
        if it is None:
            it, pos = iter(src), 0
        try:
            e = next(it)
        except StopIteration:
            require(pos == len(snaps), 'an iterator ends after %d of %d', pos, len(snaps))
            return None, 0
        require(pos < len(snaps), 'an iterator yields an extra element %r', e)
        s = snap(e)
        require(s == snaps[pos], 'an iterator yields %r at %d, expected %r', s, pos, snaps[pos])
        return it, pos + 1

    def step(self, op):
        w, m, st = self.w, self.m, self.st
        if op == 'lst':
            r = [snap(e) for e in w.doc]
            require(r == st['snaps'], 'iterating gives %r', r)
        elif op == 'len':
            require(len(w.doc) == len(w.nodes), 'len(doc) = %d', len(w.doc))
        elif op == 'idx':
            for i, s in enumerate(st['snaps']):
                require(snap(w.doc[i]) == s, 'doc[%d] is %r', i, w.doc[i])
        elif op == 'ita':
            self.ita, self.pa = self.adv(self.ita, self.pa, w.doc, st['snaps'])
        elif op == 'itb':
            self.itb, self.pb = self.adv(self.itb, self.pb, m, st['kids'])
        elif op == 'itc':
            self.itc, self.pc = self.adv(self.itc, self.pc, m, st['kids'])
        elif op == 'dsize':
            require(w.doc.size == st['dsize'], 'document size %r, expected %r', w.doc.size, st['dsize'])
        elif op == 'mval':
            self.cm.touch()
            r = [(e.id, e.offset, e.size) for e in m.value]
            require(r == [s[:3] for s in st['kids']], 'value gives %r', r)
            # what is sliced off is the caller's own
            for part in (m[:], m[0:], m[:len(r)], m[::1], m[-len(r):]):
                if isinstance(part, list):
                    part.clear()
            r = [(e.id, e.offset, e.size) for e in m.value]
            require(r == [s[:3] for s in st['kids']], 'value gives %r after a slice of it was changed', r)
        elif op == 'dval':
            for n in (1, None):
                r = [snap(e) for e in itertools.islice(w.doc.value, n)]
                require(r == st['snaps'][:n], 'the value of the document gives %r', r)
        elif op in ('new', 'newgc'):
            # elements taken from the document anew do not share what was read
            for k, nd in ((w.k, self.nd), (w.kp, self.pnd)):
                e, c = w.doc[k], CS(nd)
                want, r = c.gc(True), e.gc(True)
                require(r == want, 'gc(True) of element %d taken anew returned %r, %d values were cached', k, r, want)
                if op == 'new':
                    c.touch()
                    r = [(x.id, x.offset, x.size) for x in e.value]
                    require(r == [nsnap(n)[:3] for n in nd.children], 'the value of element %d taken anew is %r', k, r)
                    e = w.doc[k]
                    want, r = CS(nd).gc(False), e.gc()
                    require(r == want, 'gc() of element %d taken once more returned %r, %d values were cached', k, r, want)
        elif op == 'clen':
            self.cm.touch()
            for c, cs, n in zip(m.value, self.cm.kids, self.nd.children):
                if n.kind in ('string', 'binary', 'void', 'utf8', 'unknown'):
                    r = len(c)
                    if n.kind == 'utf8':
                        cs.touch()      # whether len() reads it for good is left open
                        c.value
                    require(r == (len(n.value) if n.kind == 'utf8' else n.size), 'len of %s is %d', n.name, r)
        elif op == 'mlen':
            require(len(m) == len(st['kids']), 'len gives %d', len(m))
        elif op == 'msize':
            require(m.size == self.nd.size and self.pm.size == self.pnd.size, 'size gives %r, %r', m.size, self.pm.size)
        elif op == 'm1v':
            e, c = self.child(1)
            c.touch()
            require(snap(e) == st['kids'][1], 'child 1 is %r', snap(e))
        elif op == 'mlast':
            n = len(st['kids']) - 1
            self.cm.touch()
            self.cm.kids[n].touch()
            require(snap(m[-1]) == st['kids'][n], 'last child is %r', m[-1])
        elif op == 'msub':
            e, c = self.child(SUB)
            c.touch()
            r = [snap2(x) for x in e.value]
            require(r == [snap2n(n) for n in self.nd.children[SUB].children], 'value of Sub is %r', r)
        elif op == 'msubv':
            e, c = self.child(SUB)
            c.touch()
            c.kids[1].touch()
            require(snap(e[1]) == nsnap(self.nd.children[SUB].children[1]), 'grandchild is %r', e[1])
        elif op == 'mraw':
            require(m.getRaw() == w.data[self.nd.off:self.nd.end], 'getRaw differs')
        elif op == 'craw':
            e, c = self.child(3)
            require(e.getRawValue() == self.nd.children[3].raw, 'getRawValue differs')
        elif op in ('mgc', 'mgcr'):
            want = self.cm.gc(op == 'mgcr')
            r = m.gc(op == 'mgcr')
            require(r == want, 'gc(%s) returned %r, %d values were cached', op == 'mgcr', r, want)
        elif op == 'm1gc':
            e, c = self.child(1)
            want, r = c.gc(False), e.gc()
            require(r == want, 'gc() of a child returned %r, not %d', r, want)
        elif op == 'hold':
            self.hold, self.chold = self.child(1)
        elif op == 'hval':
            if self.hold is not None:
                self.chold.touch()
                require(snap(self.hold) == st['kids'][1], 'a held child is %r', snap(self.hold))
        elif op == 'hgc':
            if self.hold is not None:
                want, r = self.chold.gc(False), self.hold.gc()
                require(r == want, 'gc() of a held child returned %r, not %d', r, want)
        elif op == 'dgc':
            require(w.doc.gc(True) == 0, 'a document reports cached values')
        elif op == 'dump':
            require(repr(m.dump()) == st['dump'], 'dump differs: %r', m.dump())
        elif op == 'seek':
            w.stream.seek(3)
        elif op == 'read':
            w.stream.read()
        elif op == 'flat':
            r = [e.offset for e in util.flatiter(w.doc)]
            require(r == st['flat'], 'flatiter gives %r', r)
        elif op == 'eq':
            require(m == w.doc[w.k] and not m != w.doc[w.k] and m != self.pm, 'equality of the same element')
        elif op == 'pmv':
            self.cp.touch()
            self.cp.kids[1].touch()
            r = [snap(e) for e in (self.pm[0], self.pm[1])]
            self.cp.kids[0].touch()
            require(r == [nsnap(n) for n in self.pnd.children[:2]], 'pre-read container holds %r', r)
        elif op == 'pmgc':
            want, r = self.cp.gc(True), self.pm.gc(recurse=True)
            require(r == want, 'gc(True) of the pre-read container returned %r, not %d', r, want)
        elif op == 'pp':
            out = io.StringIO()
            util.pprint(w.doc, out=out, binary_codec='hex')
            require(out.getvalue() == st['pp'], 'pprint differs:\n%s', out.getvalue())
        elif op == 'xml':
            r = ET.tostring(util.toXml(w.doc))
            require(r == st['xml'], 'toXml differs: %r', r)

    def final(self):
        """ Everything, once more, after the history. """
        r = [(e.offset, e.size) for e in self.m]
        require(r == [s[1:3] for s in self.st['kids']], 'afterwards the container holds %r', r)
        r = [snap(e) for e in self.w.doc]
        require(r == self.st['snaps'], 'afterwards the document holds %r', r)


def snap2(e):
    return (e.id, e.offset, e.size)


def snap2n(n):
    return (n.id, n.off, n.size)


def shards(tier):
    a = [('a', d, o, p) for d in range(4) for o in OPS for p in OPS]
    b = [('b', d, o) for d in range(4) for o in CORE]
    w = [('w', o) for o in OPS]
    return a + b + w + [('p', d, o) for d in range(4) for o in POS]


POS = ['value', 'again', 'raw', 'rawvalue', 'len', 'size', 'iter', 'step', 'doc', 'index', 'eq']


def do_pos(di, op, ctx):
    """ Every element of a document, with the stream at every position before the operation. """
    w = World(di)
    for p in range(len(w.data) + 3):
        w = World(di)
        els = []

        def crawl(el, nd):
            els.append((el, nd))
            for e, n in zip(el.value if nd.children is not None else (), nd.children or ()):
                crawl(e, n)
        for e, n in zip(list(w.doc), w.nodes):
            crawl(e, n)
        where = 'with the stream at %d: ' % p
        if op in ('doc', 'index'):
            for k, nd in enumerate(w.nodes):
                w.stream.seek(p)
                got = w.doc[k] if op == 'index' else next(itertools.islice(w.doc, k, None))
                require(snap(got) == nsnap(nd), where + 'root element %d is %r', k, got)
            w.stream.seek(p)
            require(len(w.doc) == len(w.nodes), where + 'the document holds %d', len(w.doc))
        its = {}
        if op == 'step':
            for el, nd in els:
                if nd.children:
                    its[el.offset] = iter(el)
        for el, nd in els:
            ctx.add('transitions')
            w.stream.seek(p)
            if op == 'value' and nd.children is None:
                require(snap(el) == nsnap(nd), where + '%r has the value %r', el, el.value)
            elif op == 'again':
                el.gc()
                if nd.children is None:
                    require(snap(el) == nsnap(nd), where + '%r has the value %r, read again', el, el.value)
                else:
                    require([snap(e) for e in el.value] == [nsnap(n) for n in nd.children], where + '%r holds %r, read again', el, el.value)
            elif op == 'raw':
                require(el.getRaw() == w.data[nd.off:nd.end], where + 'the raw bytes of %r are %r', el, el.getRaw())
            elif op == 'rawvalue':
                require(el.getRawValue() == w.data[nd.end - nd.size:nd.end], where + 'the raw value of %r is %r', el, el.getRawValue())
            elif op == 'len' and (nd.children is not None or nd.kind in ('utf8', 'string', 'binary')):
                n = len(nd.children) if nd.children is not None else len(nd.value) if nd.kind == 'utf8' else nd.size
                require(len(el) == n, where + 'len(%r) is %d', el, len(el))
            elif op == 'size' and nd.children is not None:
                w.stream.seek(p)
                for e in w.doc:
                    if e.offset == nd.off:
                        w.stream.seek(p)
                        require(e.size == nd.size and len(e) == len(nd.children), where + '%r has size %r and length %d', e, e.size, len(e))
            elif op == 'iter' and nd.children is not None:
                got = []
                for e in el:
                    got.append(snap(e))
                    w.stream.seek(p)
                require(got == [nsnap(n) for n in nd.children], where + '%r holds %r', el, got)
            elif op == 'eq':
                require(el == el and all((el == o) is (o is el) for o, n in els if n.off != nd.off), where + 'equality of %r', el)
        # iterators of all containers, in turn
        n = 0
        while its and op == 'step':
            for el, nd in els:
                if el.offset in its:
                    w.stream.seek(p)
                    e = next(its[el.offset], None)
                    if n == len(nd.children):
                        require(e is None, where + '%r yields %r after its last element', el, e)
                        del its[el.offset]
                    else:
                        require(e is not None and snap(e) == nsnap(nd.children[n]), where + '%r yields %r at %d', el, e, n)
            n += 1
    ctx.add('states', len(w.data) + 3)
    ctx.add('traces', len(w.data) + 3)


def cases(shard, tier):
    if shard[0] == 'p':
        yield shard
    elif shard[0] == 'a':
        for t in itertools.product(OPS, repeat=1 if tier == 'quick' else 2):
            yield (shard[1],) + shard[2:] + t
    elif shard[0] == 'w':
        for t in itertools.product(OPS, repeat=1 if tier == 'quick' else 2):
            yield (WIDE, shard[1]) + t
        # one iterator far along, others in step or ahead
        for a, b in itertools.product(('ita', 'itb', 'itc', 'seek', 'mgcr', 'mval', 'msub', 'hval'), repeat=2):
            yield (WIDE, 'hold', shard[1]) + (a, b) * 60 + (shard[1],) + (a, b, 'itb') * 40
    else:
        for t in itertools.product(CORE, repeat=3 if tier == 'quick' else 4):
            yield (shard[1], shard[2]) + t


def evaluate(case, ctx):
    if case[0] == 'p':
        return do_pos(case[1], case[2], ctx)
    r = Run(case[0])
    i = -1
    try:
        for i, op in enumerate(case[1:]):
            r.step(op)
            ctx.add('transitions')
            ctx.seen('opstates', (case[0], r.cm.cached, r.cp.cached, r.pa, r.pb, r.pc, r.hold is None))
        r.final()
    except Viol as e:
        raise Viol('after %s: %s' % (' '.join(case[1:i + 2]), e))
    ctx.add('states', len(case))
    ctx.add('traces')
