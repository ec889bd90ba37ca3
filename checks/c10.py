""" C10: a file cut off at any byte still yields everything complete before the cut. """
import io
import itertools
import os
from mc import base
from mc.base import Viol, require
from mc import model as M, obs, docs, streams
from checks import c06, c09
from ebmlite import core, util

ID = 'C10'
LEVEL = 'fault_enumeration'
RULE = ('Every document of the set x every cut position 0..len x stream kinds: all forests up to n elements, all token '
        'sequences with unknown-size containers, and large fixed documents with every element kind and descriptor width. '
        'Elements complete before the cut must be reported in full at every level, then at most one incomplete one with the '
        'right ID, position and size, then the end or an exception; a cut between root elements must end without error. '
        'Non-trivial: cuts inside an element.')
BOUNDS = dict(quick='forests n<=3 over 8 leaves, 3 containers; unknown-size token sequences n<=3 over 15 tokens; 5 fixed documents on 4 stream kinds',
              thorough='forests n<=3 over 22 leaves, n<=4 over 8; token sequences n<=4 over 15; 5 fixed documents on all stream kinds')


def fixed():
    yield c09.d1()
    yield c09.d2()
    yield M.build([docs.HEADER] + [(n, p, 8) for n, p, w in docs.LEAVES])[0]
    yield M.build([docs.HEADER, ('Seg', [('Grp', docs.LEAVES, 8), ('Cl', docs.LEAVES[:9], 5)], 8), ('B', bytes(range(1, 200)), None)])[0]
    yield M.build([('EBML', docs.HEADER[1] + [('Void', b'\xff' * 130, 4)], 3), ('U', b'\1' * 8, 7), ('I', b'\x80', 6)])[0]


FIXED = list(fixed())
MS = [('Grp', None), ('Sub', 2), ('PM', None)]
KINDS_Q = ('minimal', 'file', 'raw', 'taf')
KINDS_T = ('minimal', 'subbytesio', 'file', 'raw', 'taf', 'rwfile', 'randbuf', 'filename')


def shards(tier):
    s = [('e',), ('f', 1, 0), ('f', 2, 0)] + [('f', 3, i) for i in range(16)]
    if tier == 'thorough':
        s += [('F', 3, i) for i in range(24)] + [('f', 4, i) for i in range(64)]
    s += [('t', a) for a in c06.FULL]
    s += [('x', i, k) for i in range(len(FIXED)) for k in ('bytesio',) + (KINDS_Q if tier == 'quick' else KINDS_T)]
    return s


def cases(shard, tier):
    if shard[0] in 'fF':
        lv = docs.SMALL if shard[0] == 'f' else docs.LEAVES
        k = {1: 1, 2: 1, 3: 16 if shard[0] == 'f' else 24, 4: 64}[shard[1]]
        for specs in itertools.islice(M.forests(shard[1], MS, lv), shard[2], None, k):
            yield ('d', specs)
    elif shard[0] == 'e':
        for specs in docs.extremes():
            yield ('d', specs)
    elif shard[0] == 't':
        for n in range(0, 3 if tier == 'quick' else 4):
            for t in itertools.product(c06.FULL, repeat=n):
                toks = shard[1] + ''.join(t)
                if set(toks) & set('GTSEPC'):
                    yield ('t', toks)
    else:
        for cut in range(len(FIXED[shard[1]]) + 1):
            yield ('x', shard[1], shard[2], cut)


def scan(it, nodes, cut, full, root):
    done = [n for n in nodes if n.end <= cut]
    n, i = len(done), 0
    part = nodes[n] if n < len(nodes) and nodes[n].off < cut else None
    try:
        it = iter(it)
    except Exception as e:
        raise Viol('cannot iterate: %r' % e)
    err = None
    while True:
        try:
            el = next(it)
        except StopIteration:
            break
        except (RecursionError, MemoryError) as e:
            raise Viol('cut at %d: reading raised %r' % (cut, type(e)))
        except Exception as e:
            err = e
            break
        if i < n:
            try:
                obs.check_el(el, done[i], full)
            except Viol as e:
                raise Viol('cut at %d: %s' % (cut, e))
        else:
            require(i == n and part is not None, 'cut at %d: extra element %r', cut, el)
            require(el.offset == part.off and el.id == part.id, 'cut at %d: %r instead of %r', cut, el, part)
            if part.poff <= cut and not part.unknown:
                require(el.size == part.size and el.payloadOffset == part.poff,
                        'cut at %d: incomplete element %r (payload at %d), expected %r', cut, el, el.payloadOffset, part)
            if part.children is not None and part.poff <= cut:
                scan(el, part.children, cut, full, False)
        i += 1
    require(i >= n, 'cut at %d: %r is missing (reading ended with %r)', cut, done[i] if i < n else None, err)
    if part is not None and i == n and part.children and not part.d.precache:
        require(not any(c.end <= cut for c in part.children),
                'cut at %d: incomplete container %r with complete children is missing (%r)', cut, part, err)
    if root and part is None:
        require(err is None, 'cut at %d, between elements: reading raised %r', cut, err)


def one(data, nodes, cut, kind):
    if kind == 'bytesio':
        st, close = io.BytesIO(data[:cut]), lambda: None
    else:
        st, close = streams.make(kind, data[:cut], 0, os.path.join(base.scratch(), 'c10-%d' % os.getpid()))
    doc = None
    try:
        doc = obs.vs().load(st, headers=True)
        scan(doc, nodes, cut, data, True)
        # The same through the helpers that walk the tree.
        seen = []
        try:
            for e in util.flatiter(doc):
                seen.append(e.offset)
        except (RecursionError, MemoryError) as e:
            raise Viol('flatiter raised %r' % type(e))
        except Exception:
            pass
        require(all(o < cut for o in seen), 'cut at %d: flatiter yields elements at %r', cut, seen)
    finally:
        if doc is not None and kind in ('filename', 'path', 'taf'):
            doc.stream.close()
        close()


def evaluate(case, ctx):
    if case[0] == 'x':
        data, kind, cuts = FIXED[case[1]], case[2], [case[3]]
        nodes, _ = M.parse(data, M.VS)
    else:
        kind = 'bytesio'
        if case[0] == 'd':
            data, nodes = M.build(case[1])
        else:
            data = b''.join(c06.LEAF[t] if t in c06.LEAF else c06.inf(c06.INF[t]) for t in case[1])
            nodes, _ = M.parse(data, M.VS)
        cuts = range(len(data) + 1)
    ends = {0} | {n.end for n in nodes}
    for cut in cuts:
        ctx.add('evaluations')
        if cut not in ends:
            ctx.add('distinct_nontrivial')
        one(data, nodes, cut, kind)
