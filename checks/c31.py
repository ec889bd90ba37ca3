""" C31: going through a document keeps nothing alive that is not held. """
import gc
import io
import itertools
import os
import sys
import tracemalloc
from mc.base import require
from mc import model as M, obs, docs
from ebmlite import core, util, xml_codecs

ID = 'C31'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all units of a bounded grammar x repetition, place and operation, with the live elements counted at every access to the stream'
RULE = ('Every forest of up to n elements is repeated a few and many times, at the root of a document, in a sized and (where allowed) in an unknown-size container, and gone through with every operation '
        '(iterating, flat iteration, length, size, indexing, verification, dump, conversion to XML, printing, and combinations with clearing caches). At every seek and read of the stream, the elements alive are counted: '
        'the highest count must not depend on the number of repetitions. Afterwards no element may be left but those held, and none when the document is dropped. '
        'For large payloads the peak of allocated memory is compared with the size of one payload. Non-trivial: operations that pass more than 10 elements.')
BOUNDS = dict(quick='units of up to 2 of 13 leaves and 4 containers (3: of 5 and 2) x 5 and 15 repetitions x 3 places x 19 operations; payloads of 200 KiB x 4 and 12',
              thorough='units of up to 3 of 13 leaves and 4 containers x 5 and 15 repetitions (up to 2: also 60) x 3 places x 19 operations; payloads of 200 KiB and 1 MiB x 4 and 12')
ASSUMPTIONS = ['taking the value of a container (which printing does for containers inside the document) keeps its children by design', 'pre-read containers are kept with their parent',
               'counted with the garbage collector of CPython after a collection']

LEAVES = [('U', b'\x05', None), ('I', b'\xff\x01', None), ('F', docs.F64, None), ('S', b'hi\0x', None), ('Z', b'h\xc3\xa9', 2), ('D', docs.DATE, None), ('B', b'\x81\x81\x05', None), ('Void', b'\xff\xa0', None),
          (0x4FFE, b'u\xa0\x81', None), ('B', b'', 8), ('PB', b'pre', None), ('PM', [('U', b'\1', None), ('B', b'x', None)], None), ('LU', b'\1\2', None)]
MASTERS = [('Grp', None), ('Sub', 2), ('Seg', 8), ('PM', None)]
PLACES = ['root', 'sized', 'unknown']


class Spy(io.BytesIO):
    """ Counts the live elements at every access. """
    peak = 0
    on = False

    def watch(self):
        if self.on:
            n = live()
            if n > self.peak:
                self.peak = n

    def seek(self, *args):
        self.watch()
        return super().seek(*args)

    def read(self, *args):
        self.watch()
        return super().read(*args)


def live():
    return sum(1 for o in gc.get_objects() if isinstance(o, core.Element))


def op_iter(el):
    for c in el:
        pass


def op_iterdeep(el):
    for c in el:
        if isinstance(c, core.MasterElement):
            op_iterdeep(c)
        else:
            c.value


def op_raw(el):
    for c in el:
        c.getRawValue()
        c.getRaw()
        c.size
        len(c) if isinstance(c, core.MasterElement) else repr(c)


def op_flat(el):
    for c in util.flatiter(el):
        pass


def op_flat2(el):
    for c in util.flatiter(el, 2):
        c.value if not isinstance(c, core.MasterElement) else c.size


def op_len(el):
    len(el)


def op_size(el):
    el.size


def op_index(el):
    if isinstance(el, core.Document):
        for i in range(len(el)):
            el[i]


def op_xml(el):
    util.toXml(el)


def op_print(el):
    if isinstance(el, core.Document):
        util.pprint(el, out=io.StringIO())


def op_printbrief(el):
    if isinstance(el, core.Document):
        util.pprint(el, values=False, out=io.StringIO())


class Null(io.StringIO):
    def write(self, s):
        return len(s)


def op_show(el):
    """ Printed with codecs of one's own. """
    if isinstance(el, core.Document):
        for c in (xml_codecs.Base64Codec(), xml_codecs.Base64Codec(cols=None), xml_codecs.Base64Codec(cols=40)):
            util.pprint(el, out=Null(), binary_codec=c, void_codec=c)


def op_showhex(el):
    if isinstance(el, core.Document):
        c = xml_codecs.HexCodec()
        util.pprint(el, out=Null(), binary_codec=c, void_codec='hex')


def op_xmlbrief(el):
    util.toXml(el, binary_codec='ignore', void_codec='ignore')


def op_dump(el):
    el.dump() if not isinstance(el, core.Document) else [c.dump() for c in el]


def op_docdump(el):
    el.dump()


def op_value_gc(el):
    """ The values of the children, dropped again. """
    for c in el:
        c.value
        c.gc(recurse=True)


def op_two(el):
    for a, b in zip(el, el):
        require(a is not None and b is not None, 'lost')


def op_part(el):
    """ Iterations that are given up. """
    for i in range(12):
        it = iter(el)
        next(it, None)
        next(it, None)


OPS = [op_iter, op_iterdeep, op_raw, op_flat, op_flat2, op_len, op_size, op_index, op_xml, op_print, op_printbrief, op_dump, op_docdump, op_value_gc, op_two, op_part, op_show, op_showhex, op_xmlbrief]


def shards(tier):
    return [(p, i) for p in PLACES for i in range(8)] + [('verify', 0), ('gc', 0), ('big', 0), ('big', 1)]


def units(tier):
    deep = tier == 'thorough'
    for n in (1, 2):
        yield from M.forests(n, MASTERS, LEAVES)
    yield from M.forests(3, MASTERS if deep else MASTERS[:2], LEAVES if deep else LEAVES[:1] + LEAVES[6:9] + LEAVES[11:12])


def cases(shard, tier):
    place, i = shard
    if place == 'big':
        for op, where, name in itertools.product(range(len(OPS)), PLACES, ('B', 'S', 'Z', 'PB', 'PZ', 0x4FFE, 'Void', 'CRC-32')):
            if (op + len(str(name))) % 2 == i:
                yield ('big', op, where, name)
        return
    if place == 'gc':
        for u in units('quick'):
            yield ('gc', u)
        return
    if place == 'verify':
        for u in units('quick'):
            if not any(isinstance(s[0], int) for s in flat(u)):
                yield ('verify', u)
        return
    for u in itertools.islice(units(tier), i, None, 8):
        if place == 'unknown' and not all(s[0] in ('Grp', 'Sub', 'U', 'Void', 'PM', 'PB', 'LU') for s in u):
            continue
        for op in range(len(OPS)):
            yield ('u', place, u, op)


def flat(specs):
    for s in specs:
        yield s
        if isinstance(s[1], list):
            yield from flat(s[1])


def document(place, unit, times):
    body = unit * times
    if place == 'root':
        return M.build(body)[0]
    return M.build([('Seg' if place == 'unknown' else 'Grp', body, -1 if place == 'unknown' else None)])[0]


def measure(fn, data, place):
    """ Highest number of live elements during an operation, and after it. """
    stream = Spy(data)
    doc = obs.vs().load(stream, headers=True)
    el = doc if place == 'root' else next(iter(doc))
    gc.collect()
    stream.on = True
    base = live()
    fn(el)
    stream.on = False
    gc.collect()
    after = live()
    del el, doc
    gc.collect()
    return max(stream.peak, base) , after - base, live()


def evaluate(case, ctx):
    gc.collect()
    gc.freeze()
    try:
        globals()['do_' + case[0]](ctx, *case[1:])
        gc.collect()
        require(live() == 0, '%d elements are left at the end', live())
    finally:
        gc.unfreeze()
    ctx.add('evaluations')


def do_u(ctx, place, unit, op):
    fn = OPS[op]
    counts = [5, 15] + ([60] if ctx.tier == 'thorough' and len(list(flat(unit))) < 3 else [])
    got = []
    for times in counts:
        peak, kept, left = measure(fn, document(place, unit, times), place)
        require(left == 0, '%s: %d elements are alive after the document was dropped', fn.__name__, left)
        require(kept <= 0, '%s: %d more elements are alive afterwards', fn.__name__, kept)
        got.append(peak)
    require(max(got) <= got[0], '%s on %s: %r elements alive at most for %r repetitions', fn.__name__, place, got, counts)
    ctx.add('transitions', sum(counts))
    ctx.add('distinct_nontrivial')


def do_verify(ctx, unit):
    got = []
    for times in (5, 15):
        data = document('root', unit, times)
        sch = obs.vs()
        peaks = [0]
        where = os.path.dirname(core.__file__)

        def watch(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(where):
                peaks.append(live())
        sys.setprofile(watch)
        try:
            sch.verify(data)
        finally:
            sys.setprofile(None)
        got.append(max(peaks))
    require(got[1] <= got[0], 'verify: %r elements alive at most', got)
    ctx.add('distinct_nontrivial')


def do_gc(ctx, unit):
    """ Clearing caches lets go of everything cached. """
    data = document('sized', unit, 6)
    doc = obs.vs().load(io.BytesIO(data), headers=True)
    el = next(iter(doc))
    gc.collect()
    base = live()
    for recurse in (False, True):
        v = el.value
        n = len(v)
        for c in v:
            c.value
        require(live() >= base + n, 'the value has only %d live children of %d', live() - base, n)
        del v, c
        el.gc(recurse=recurse)
        gc.collect()
        require(live() == base, '%d elements are alive after gc(recurse=%r)', live() - base, recurse)
    list(util.flatiter(el))
    [x for x in doc]
    gc.collect()
    require(live() == base, '%d elements are alive after iterating', live() - base)
    ctx.add('distinct_nontrivial')


def do_big(ctx, op, place, name):
    """ Payloads read on the way are not kept. """
    fn = OPS[op]
    if place == 'unknown' and name not in ('PB', 'PZ', 'Void', 'CRC-32'):
        return
    if name in ('S', 'Z', 'B', 'PB', 'PZ', 0x4FFE, 'CRC-32') and fn in (op_xml, op_docdump, op_dump, op_print):
        # their results hold the contents
        if place != 'root' or fn in (op_xml, op_docdump, op_print, op_dump):
            return
    if fn is op_xmlbrief and name in ('S', 'Z', 'PZ'):
        return
    if fn is op_showhex:
        if name not in ('B', 'PB', 'Void') or place != 'root':
            return
        size = 4 << 10          # (slow)
    for size in (size,) if fn is op_showhex else ((200 << 10,) if ctx.tier == 'quick' else (200 << 10, 1 << 20)):
        payload = b'a' * size
        peaks = []
        for times in (4, 12):
            data = document(place, [(name, bytes([98 + k]) + payload[1:], None) if h == 0 else ('Void', b'', None) for k in range(times) for h in (0, 1)], 1)
            stream = io.BytesIO(data)
            doc = obs.vs().load(stream, headers=True)
            el = doc if place == 'root' else next(iter(doc))
            fn(el)          # warm up
            doc = obs.vs().load(stream, headers=True)
            stream.seek(0)
            doc = obs.vs().load(stream, headers=True)
            el = doc if place == 'root' else next(iter(doc))
            gc.collect()
            tracemalloc.start(1)
            try:
                fn(el)
                peaks.append(tracemalloc.get_traced_memory()[1])
            finally:
                tracemalloc.stop()
        require(peaks[1] - peaks[0] < size, '%s on %s of %r: %d bytes allocated at most for 4 payloads of %d bytes, %d for 12', fn.__name__, place, name, peaks[0], size, peaks[1])
    ctx.add('distinct_nontrivial')
