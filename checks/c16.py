""" C16: no operation leaves a trace that changes later ones. """
import contextlib
import copy
import datetime
import decimal
import gc
import io
import itertools
import locale
import logging
import os
import pickle
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import traceback
import warnings
from xml.etree import ElementTree as ET
from mc.base import Viol, require, scratch, HarnessError
from mc import model as M, obs, docs
from checks import c07, c09, c14
import ebmlite
from ebmlite import core, util, xml_codecs, encoding, decoding
from ebmlite.threaded_file import ThreadAwareFile

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'model checking: every sequence of operations up to a depth, each in its own process, against the operation alone in a fresh process'
RULE = ('States are sequences of operations. Sequences run in processes forked from one that has only imported the library '
        'and parsed two conflicting schemata: every short sequence in one of its own, every longer one as part of the run of '
        'all its extensions; the result of every operation must equal the result of that operation alone in a fresh process, '
        'and its arguments and the state of the interpreter (warning filters, limits, umask, working directory, environment, open files, ...) must be unchanged. Also, all data and XML trees of small grammars are converted repeatedly and must stay as they are.')
BOUNDS = dict(quick='36 operations; all pairs in a process each, all triples in runs per pair', thorough='36 operations; all triples in a process each, all quadruples in runs per triple')
CASE_LIMIT = 120

# The same IDs and names with other meanings.
B_XML = '''<Schema>
  <MasterElement name="EBML" id="0x1A45DFA3" mandatory="1" multiple="0">
    <UIntegerElement name="EBMLVersion" id="0x4286" default="1"/>
    <StringElement name="DocType" id="0x4282" default="other"/>
    <UIntegerElement name="DocTypeVersion" id="0x4287" default="9"/>
  </MasterElement>
  <UnicodeElement name="B" id="0x81" multiple="1"/>
  <BinaryElement name="U" id="0x84" multiple="0"/>
  <MasterElement name="Grp" id="0x83" multiple="1"><UIntegerElement name="Mine" id="0x85" multiple="1" precache="0"/></MasterElement>
  <MasterElement name="Sub" id="0xA0" multiple="1"><BinaryElement name="U" id="0x84"/><UnicodeElement name="B" id="0x81"/></MasterElement>
  <FloatElement name="I" id="0x4201" multiple="1" length="4"/>
  <BinaryElement name="Void" id="0xBF" global="1" multiple="1"/>
  <UIntegerElement name="Other" id="0x4FFE" global="1" multiple="1"/>
</Schema>'''


def bschema():
    return core.parseSchema(B_XML, 'vb')


DATA1 = lambda: M.build([docs.HEADER, ('U', b'\5', None), ('Grp', [('U', b'\7', None), ('B', b'zz', None), ('I', b'\xc0\0\0\0', None)], None),
                         (0x4FFE, b'\1\2', None), ('B', b'xyz', None), ('Void', b'\xff\xff', None), ('CRC-32', b'1234', None)])[0]


def trees(schema, data, **kw):
    return [obs.tree(e) for e in schema.load(io.BytesIO(data), **kw)]


def err(f, *a, **kw):
    try:
        r = f(*a, **kw)
    except Exception as e:
        return type(e).__name__
    return ('no error', repr(r)[:200])


def unchanged(f, *args):
    """ Run f(*args) and check that the arguments are as before. """
    before = [ET.tostring(a) if isinstance(a, ET.Element) else copy.deepcopy(a) for a in args]
    try:
        r = f(*args)
    except Exception as e:
        r = type(e).__name__
    for a, b in zip(args, before):
        now = ET.tostring(a) if isinstance(a, ET.Element) else a
        require(now == b, 'an argument was changed from %r to %r', b, now)
    return r


def xml2(x, schema, **kw):
    out = io.BytesIO()
    n = util.xml2ebml(x, out, schema, **kw)
    return n, out.getvalue()


ENC = {'Grp': {'U': 5, 'B': b'x', 'Sub': [{'U': 1}, {'U': 2}]}, 'U': [1, 2], 'Void': b'', 'Seg': {'L4': 3, 'LS': 'ab', 'Cl': [{'U': 1}]}}
ENCB = {'Grp': {'Mine': [1, 2]}, 'U': b'bin', 'B': ['t', 'u'], 'I': 1.5}


def o_read_a():
    return trees(obs.vs(), DATA1(), headers=True), trees(obs.vs(), DATA1(), headers=False)


def o_read_b():
    return trees(bschema(), DATA1(), headers=True)


def o_inf():
    return trees(obs.vs(), c09.d2(), headers=True)


# Containers of unknown size: 0xA0 is Grp in one schema, Sub in the other, etc.
INFS = [M.id_bytes(c) + M.size_desc(None, 1) + b''.join(e) for c in (0xA0, 0x83, 0x2B0001, 0xA3, 0x18538067)
        for e in ((b'\x81\x81A',), (b'\x84\x81B',), (b'\x85\x81\1',), (b'\xbf\x80', b'\x84\x80'), (b'\xec\x80',), (b'\x4f\xfe\x81\1', b'\x81\x80'))]


def o_infs_a():
    return [err(trees, obs.vs(), d) for d in INFS]


def o_infs_b():
    return [err(trees, bschema(), d) for d in INFS]


def o_enc_a():
    return unchanged(lambda d: bytes(obs.vs().encodes(d, headers=True)), dict(ENC))


def o_enc_b():
    return unchanged(lambda d: bytes(bschema().encodes(d, headers=True)), dict(ENCB))


def o_enc_pairs():
    d = [('U', 1), ('Grp', [('U', 2), ('S', 'x')]), ('Grp', [{'U': 1}, {'U': 2}]), (0x84, b'q')]
    return unchanged(lambda d: bytes(obs.vs().encodes(d)), d)


def o_enc_opts():
    a = obs.vs()
    return [bytes(x) for x in (a['U'].encode(1, length=3, lengthSize=2), a['Grp'].encode({'U': 1}, infinite=True), a['Grp'].encode({'U': 1}, lengthSize=8),
                               a['Void'].encode(b'', length=5), a['S'].encode('abc', length=2), a['F'].encode(1.5, length=4), a['F'].encode(1.5))]


def o_enc_fail():
    a, b = obs.vs(), bschema()
    return [err(a.encodes, {'Nope': 1}), err(a.encodes, {'U': 'x'}), err(a.encodes, {'Grp': {'N': [1, 2]}}), err(a.encodes, {'Grp': {'U': 1, 'Mine': 2}}),
            err(a['U'].encode, 1, infinite=True), err(a['U'].encode, 300, length=1), err(b.encodes, {'U': [b'1', b'2']}), err(a['B'].encode, 'x' * 200, lengthSize=1),
            err(a['D'].encode, 5), err(a['Grp'].encode, [[{'U': 'x'}]]), err(b.encodes, {'Sub': {'U': 'x', 'B': 4}})]


def o_xml_a():
    d = obs.load(DATA1())
    return ET.tostring(util.toXml(d)), ET.tostring(util.toXml(d, offsets=False, sizes=False, types=False, ids=False, binary_codec='hex', void_codec='base64'))


def o_xml_b():
    return ET.tostring(util.toXml(bschema().load(io.BytesIO(DATA1()), headers=True)))


def o_from_a():
    x = ET.fromstring('<VsDocument><U value="1"/><Mine id="0x4FFE">aGk=</Mine><Grp sizeLength="2"><Mine id="0x2ABCDE" encoding="hex">01</Mine>'
                      '<F value="1.5"/></Grp><UnknownElement id="0xFD"/><Void size="3"/></VsDocument>')
    return unchanged(lambda x: xml2(x, obs.vs()), x)


def o_from_b():
    x = ET.fromstring('<VbDocument><B value="1"/><Mine value="7"/><X id="0x4ABC" size="5">aGk=</X><Grp><Mine value="3"/><Y id="0xFD"/></Grp><Void size="2"/></VbDocument>')
    return unchanged(lambda x: xml2(x, bschema(), headers=False, sizeLength=3), x)


def o_from_fail():
    f = lambda s, **kw: unchanged(lambda x: err(xml2, x, obs.vs(), **kw), ET.fromstring(s))
    # nothing but the tag, and a value that is none
    odd = [f('<VsDocument>%s</VsDocument>' % t) for n in sorted(d.name for d in M.VS.byName.values()) + ['Mine id="0x4FFE"']
           for t in ('<%s/>' % n, '<%s value="zz" size="-1"/>' % n, '<%s size="x">zz</%s>' % (n, n.split()[0]), '<%s encoding="none" value="">zz</%s>' % (n, n.split()[0]))]
    return odd + [f('<VsDocument><Grp><Mine id="0x4FFE">aGk=</Mine></Grp></VsDocument>', unknown=False), f('<VsDocument><Grp><Mine/></Grp></VsDocument>'),
            f('<Nope/>'), f('<VsDocument><B encoding="rot13">aGk=</B></VsDocument>'), f('<VsDocument><Mine id="0x4ABC" size="1">aGk=</Mine></VsDocument>'),
            f('<VsDocument><U value="x"/></VsDocument>'), f('<VsDocument><Mine id="zz"/></VsDocument>')]


def o_print(schemata=(obs.vs,)):
    r = []
    for schema in [f() for f in schemata]:
        for kw in ({}, dict(binary_codec='hex', void_codec='hex'), dict(values=False, indent='.'), dict(binary_codec=xml_codecs.HexCodec(cols=4))):
            out = io.StringIO()
            util.pprint(schema.load(io.BytesIO(DATA1()), headers=True), out=out, **kw)
            r.append(out.getvalue())
    return r


def o_print_b():
    return o_print((bschema,))


def o_bad():
    data = DATA1()
    return [err(trees, obs.vs(), data[:-2] + b'\0\0\0'), [e.offset for e in obs.load(data[:40])], err(trees, obs.vs(), b'\x42\x02\x83abc'),
            err(trees, obs.vs(), b'\x2a\0\1\x82\xff\xff'), err(trees, obs.vs(), b'\0'), trees(obs.vs(), b''), err(obs.vs().load, 5), err(obs.vs().load, '/nonexistent')]


def o_verify():
    good = M.build([docs.HEADER, ('Grp', [('U', b'\7', None)], None)])[0]
    return [err(obs.vs().verify, good), err(obs.vs().verify, DATA1())]


def o_verify_b():
    good = M.build([docs.HEADER, ('Grp', [('U', b'\7', None)], None)])[0]
    return [err(bschema().verify, good), err(bschema().verify, DATA1()), err(bschema().verify, b'\x81\x82hi\x83\x83\x85\x81\1')]


def o_gc():
    d = obs.load(c09.d1())
    m = d[1]
    a = [obs.tree(c) for c in m]
    return m.gc(), m.gc(), len(m.value), m.gc(True), a == [obs.tree(c) for c in m], m.dump() == d[1].dump(), repr(m.dump())


def o_paths():
    p = [scratch(), '{ebmlite.schemata}']
    out = io.StringIO()

    def f(p):
        util.printSchemata(p, out=out)
        return (sorted(core.listSchemata(*p)), os.path.basename(core.loadSchema('c16a.xml', paths=p).filename), err(core.loadSchema, 'none.xml', paths=p),
                out.getvalue(), core.SCHEMA_PATH[0], len(core.SCHEMA_PATH))
    return unchanged(f, p)


def o_schema():
    s = core.parseSchema(B_XML.replace('Other', 'Third').replace('default="9"', 'default="4"'), 'vc%d' % next(_n))
    return sorted(s.elementsByName), s.version, s.type, trees(s, DATA1(), headers=True), s == obs.vs(), s['Void'].id


def o_schema_fail():
    bad = [B_XML.replace('BinaryElement', 'OddElement'), B_XML.replace('name="Grp" id="0x83"', 'name="Grp" id="0x84"'), B_XML.replace('name="I"', 'name="1I"'),
           '<Schema>', '<Other/>', B_XML.replace(' id="0xA0"', '')]
    return [err(core.parseSchema, b, 'bad%d' % next(_n)) for b in bad] + [err(core.loadSchema, 'c16bad.xml', paths=[scratch()])]


def o_shipped():
    s = core.loadSchema('mide_ide.xml')
    return len(s.elements), s.type, s.version, s is core.loadSchema('mide_ide.xml'), bytes(s.encodes({'Void': b''}, headers=True))


def o_ids():
    ex = [0x81, 0x82]
    unchanged(lambda *exs: [util.createID(obs.vs(), 'A', exclude=e, count=5) for e in exs], {0x81, 0x90}, {0x81: 1}, bytearray(b'\x81'), (0x82,))
    return unchanged(lambda ex: (util.createID(obs.vs(), 'A', exclude=ex, count=5), util.createID(bschema(), 'B', count=2), util.createID(obs.vs(), 'b', minId=0x4200, count=3)), ex)


def o_codec():
    b = bytes(range(100))
    return [c.encode(b) for c in (xml_codecs.HexCodec(), xml_codecs.HexCodec(cols=0), xml_codecs.Base64Codec(), xml_codecs.Base64Codec(cols=0))] + [
        xml_codecs.HexCodec.decode('[000000] 0102'), err(xml_codecs.HexCodec.decode, 'zz'), sorted(xml_codecs.BINARY_CODECS)]


def o_taf():
    p = os.path.join(scratch(), 'c16.ebml')
    f = ThreadAwareFile(p, 'rb')
    d = obs.vs().load(f, headers=True)
    r = [obs.tree(e) for e in d]
    f.close()
    return r, err(f.read) if False else None, err(ThreadAwareFile, p, 'wb')


def o_flat():
    return [(e.name, e.offset) for e in util.flatiter(obs.load(c09.d2()))], [e.offset for e in util.flatiter(obs.load(c09.d1()), depth=1)]


def o_eq():
    a, b = obs.load(DATA1()), bschema().load(io.BytesIO(DATA1()), headers=True)
    return [[x == y for y in list(a) + list(b)] for x in list(a) + list(b)]


def o_loadxml():
    x = ET.fromstring('<VsDocument><U value="1"/><Mine id="0x4FFE">aGk=</Mine></VsDocument>')
    return unchanged(lambda x: [obs.tree(e) for e in util.loadXml(x, obs.vs(), ':memory:')], x)


def o_loadxml_file():
    x = ET.fromstring('<VsDocument><U value="1"/><B>aGk=</B></VsDocument>')
    r = []
    os.environ['TMPDIR'], tempfile.tempdir = scratch(), None
    try:
        for name in (None, os.path.join(scratch(), 'c16x%d.ebml' % os.getpid())):
            d = unchanged(lambda x: util.loadXml(x, obs.vs(), name), x)
            r.append([obs.tree(e) for e in d])
            d.close()
            r.append(os.stat(d.filename).st_mode)
            os.unlink(d.filename)
    finally:
        del os.environ['TMPDIR']
        tempfile.tempdir = None
    return r


def o_same():
    # a schema is equal to another of the same text, and can still be extended, before and after use
    r = []
    for s, text in ((obs.vs(), M.VS_XML), (bschema(), B_XML)):
        t = core.parseSchema(text, 'vd%d' % next(_n))
        r += [s == t, t == s, s.type, s.version, repr(sorted(s.elementInfo.items())) == repr(sorted(t.elementInfo.items()))]
        t.encodes({}, headers=True)
        r += [s == t, t == s]
        for n in ('DocType', 'DocTypeVersion', 'EBMLVersion', 'U'):
            info = dict(t.elementInfo[t[n].id])
            r.append(err(t.addElement, t[n].id, n, t[n].__base__, {k: info[k] for k in info if k in ('default', 'name')}, t['Grp']))
    return r


def o_held():
    d = HELD[0]
    return len(d), [obs.tree(e) for e in d], d.version, d.type, dict(d.info), bytes(d.schema.encodes({'U': 1}))


def o_text():
    data = M.build([('S', b'caf\xe9', None), ('S', b'\xff\0x', None), ('Z', b'\xff', None)])[0]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = [err(lambda: e.value) for e in obs.load(data)]
    for _ in 1, 2:
        with contextlib.redirect_stderr(io.StringIO()):
            r += [err(lambda: e.value) for e in obs.load(data)]
        r.append(err(encoding.encodeUInt, 1.5))
    return r, [str(x.message) for x in w]


def o_cwd():
    cwd = os.getcwd()
    os.chdir(scratch())
    try:
        out = io.StringIO()
        util.printSchemata('', out=out)
        return sorted(k for k in core.listSchemata('') if k.startswith('c16')), out.getvalue(), [sorted(map(os.path.basename, v)) for k, v in core.listSchemata('.', './', '').items() if k == 'c16a.xml'], \
            os.path.basename(core.loadSchema('c16a.xml', paths=['']).filename), err(core.loadSchema, '', paths=['']), err(core.loadSchema, 'c16none.xml', paths=['', '.'])
    finally:
        os.chdir(cwd)


def o_number():
    return [bytes(x) for x in (encoding.encodeSize(127), encoding.encodeSize(5, 4), encoding.encodeFloat(1.5), encoding.encodeInt(-129), encoding.encodeUInt(256),
                               encoding.encodeDate(datetime.datetime(2020, 1, 2, 3)), encoding.encodeId(0x4FFE))] + [
        decoding.readElementID(io.BytesIO(b'\x4f\xfe')), decoding.readElementSize(io.BytesIO(b'\x40\x7f'))]


OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('o_')}
NAMES = sorted(OPS)
HELD = []
_n = itertools.count()
BASE = {}


def umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def ambient():
    """ State of the process that is not the library's. """
    return dict(umask=umask(), tempdir=tempfile.tempdir, random=hash(random.getstate()), signals=[signal.getsignal(i) for i in (1, 2, 10, 13, 14, 15, 17)],
                net=socket.getdefaulttimeout(), limits=(resource.getrlimit(resource.RLIMIT_NOFILE), resource.getrlimit(resource.RLIMIT_STACK)), log=(logging.root.level, len(logging.root.handlers)),
                stack=threading.stack_size(), priority=os.getpriority(os.PRIO_PROCESS, 0), dont=sys.dont_write_bytecode, filters=list(warnings.filters), showwarning=warnings.showwarning, recursion=sys.getrecursionlimit(), cwd=os.getcwd(), environ=dict(os.environ),
                path=list(sys.path), namespaces=dict(ET._namespace_map), locale=locale.setlocale(locale.LC_ALL), prec=decimal.getcontext().prec,
                streams=(sys.stdin, sys.stdout, sys.stderr, sys.__stdout__), gc=(gc.isenabled(), gc.get_threshold()), threads=threading.active_count(),
                interval=sys.getswitchinterval(), hooks=(sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
                files=sorted(os.listdir('/proc/self/fd')), intmax=sys.get_int_max_str_digits(), search=list(core.SCHEMA_PATH), codecs=dict(xml_codecs.BINARY_CODECS))


def run(names):
    """ Results of the operations in a process of their own. """
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = []
            before = ambient()
            for nm in names:
                try:
                    out.append(('ok', OPS[nm]()))
                except Viol as e:
                    out.append(('viol', str(e)))
                except Exception as e:
                    out.append(('error', type(e).__name__ + ': ' + str(e)))
                now = ambient()
                if now != before:
                    out[-1] = ('viol', 'the operation changed the state of the process: ' + ', '.join('%s from %.200r to %.200r' % (k, before[k], now[k]) for k in now if now[k] != before[k]))
                before = now
            data = pickle.dumps([(a, repr(b)) for a, b in out])
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def prepare(tier):
    for name, text in (('c16a.xml', B_XML), ('c16bad.xml', B_XML.replace('<FloatElement', '<NoElement'))):
        with open(os.path.join(scratch(), name), 'w') as f:
            f.write(text)
    with open(os.path.join(scratch(), 'c16.ebml'), 'wb') as f:
        f.write(DATA1())
    for k in ('PWD', 'OLDPWD', 'HOME', 'TMPDIR', 'COLUMNS'):
        os.environ.pop(k, None)     # what an operation sets there shows
    obs.vs(), bschema()
    HELD.append(obs.load(DATA1()))
    for nm in NAMES:
        BASE[nm] = run([nm])
        if BASE[nm] != run([nm]):
            raise HarnessError('%s is not deterministic' % nm)
        if os.environ.get('MC_SHOW'):
            print(nm, str(BASE[nm])[:300])


def shards(tier):
    return [(a,) for a in NAMES] + [('args', k, i) for k in ('enc', 'xml') for i in range(8)]


def cases(shard, tier):
    """ ('own', ops): a process of its own; ('run', prefix): one process runs
        prefix + x for every operation x, one after the other. """
    if shard[0] == 'args':
        yield from itertools.islice(arg_cases(shard[1], tier), shard[2], None, 8)
        return
    a = shard[0]
    for b in NAMES:
        yield ('own', (a, b))
        if tier == 'quick':
            yield ('run', (a, b))
        else:
            for c in NAMES:
                yield ('own', (a, b, c))
                yield ('run', (a, b, c))


def arg_cases(kind, tier):
    """ Data and XML trees that are to be the same after they were converted. """
    if kind == 'enc':
        ms = [(m, None) for m in c07.MAST]
        for n in (0, 1, 2):
            for f in M.forests(n, ms, c07.lv(c07.LEAVES if n < 2 or tier != 'quick' else c07.MID)):
                yield ('enc', c07.T(f))
    else:
        for n in (1, 2):
            for f in c14.forests(n, c14.LEAVES, c14.MASTERS if n == 1 or tier != 'quick' else c14.MSMALL):
                yield ('xml', f)


def arguments(case, ctx):
    """ Converting twice gives the same twice, and the argument stays as it was. """
    kind, what = case
    if kind == 'enc':
        own = ('EBML', [('EBMLVersion', 1), ('DocType', 'mine')])
        for tree in (what, what + [own], [own] + what):
            for form, group, key in itertools.product(('dict', 'pairs', 'tuple'), (0, 1, 2), (False, True)):
                val = c07.render(tree, form, group, key)
                if val is None:
                    continue
                ctx.add('evaluations')
                before, first = repr(val), None
                for headers in (True, False, True):
                    r = err(lambda: bytes(obs.vs().encodes(val, headers=headers)))
                    require(repr(val) == before, 'encoding with headers=%s changed %s to %r', headers, before, val)
                    if headers and first is None:
                        first = r
                require(r == first, 'encoding %s twice gives %r, then %r', before, first, r)
                for k, v in val.items() if isinstance(val, dict) else val:
                    for _ in 1, 2:
                        err(lambda: bytes(obs.vs()[k].encode(v, lengthSize=4)))
                        require(repr(val) == before, 'encoding an element changed its data from %s to %r', before, val)
    else:
        x = ET.Element(obs.vs().document.__name__, {'source': '', 'size': '99'})
        for n in what:
            x.append(c14.xml(n))
        before = ET.tostring(x)
        for sl, headers, u in ((None, True, True), (2, False, True), (None, False, False)):
            rs = []
            for _ in 1, 2:
                out = io.BytesIO()
                rs.append((err(util.xml2ebml, x, out, obs.vs(), sizeLength=sl, headers=headers, unknown=u), out.getvalue()))
                require(ET.tostring(x) == before, 'conversion with sizeLength=%r headers=%s changed %r to %r', sl, headers, before, ET.tostring(x))
            require(rs[0] == rs[1], 'converting %r twice gives %r, then %r', before, *rs)
            ctx.add('evaluations')
            for c in x:
                err(util.xmlElement2ebml, c, io.BytesIO(), obs.vs(), sl, u)
                require(ET.tostring(x) == before, 'converting an element changed %r to %r', before, ET.tostring(x))


def evaluate(case, ctx):
    if case[0] in ('enc', 'xml'):
        return arguments(case, ctx)
    how, seq = case
    if how == 'run':
        seq = tuple(x for c in NAMES for x in seq + (c,))
    got = run(seq)
    require(got is not None, 'the process running %s died', ' '.join(seq))
    for i, (nm, r) in enumerate(zip(seq, got)):
        want = BASE[nm][0]
        if want[0] == 'viol':
            raise Viol('%s: %s' % (nm, want[1]))
        if r != want:
            a, b = r[1], want[1]
            k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Viol('%s after %s gives %s ...%s, alone it gives ...%s' % (
                nm, ' '.join(seq[max(0, i - 12):i]) or '(nothing)', r[0], a[max(0, k - 60):k + 120], b[max(0, k - 60):k + 120]))
        ctx.add('transitions')
    ctx.add('states', len(seq) + 1)
    ctx.add('traces', 1 if how == 'own' else len(NAMES))
