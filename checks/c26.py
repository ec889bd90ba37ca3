""" C26: the command-line tools convert faithfully and never overwrite unasked. """
import importlib
import io
import itertools
import os
import shutil
import subprocess
import sys
import traceback
from xml.etree import ElementTree as ET
from mc.base import Viol, REPO, require, scratch
from mc import model as M, obs, docs, fresh
from ebmlite import core, util, xml_codecs
from ebmlite.tools import ebml2xml, xml2ebml, view_ebml, list_schemata     # noqa: so that children need not

ID = 'C26'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all combinations of tool, options, schema spelling and file states, run in forked processes, and of all documents of a bounded grammar'
RULE = ('Every tool is run, in a process of its own with real files, with every combination of schema spelling (good and bad), input (present, missing, not convertible), output (none, new, '
        'existing, reached by another spelling or link, a directory), overwriting and its own options. Standard output, messages, status and every file in the directory are compared with '
        'the library conversion and the state before. Every document of the grammar goes through ebml2xml and back through xml2ebml with every lossless combination of options. '
        'Non-trivial: runs that convert or refuse something.')
BOUNDS = dict(quick='all combinations of 3 tools, 13 schema spellings, 5 inputs, 12 outputs, 2 overwrite options with rotating options and documents; all options with all outputs; 290 documents back and forth; 24 runs as real commands',
              thorough='all combinations of 3 tools, 13 schema spellings, 5 inputs, 12 outputs, 4 spellings of the overwrite option, all options; 12000 documents back and forth; 24 runs as real commands')
ASSUMPTIONS = ['overwriting a file which is also the input, and what is left behind by a conversion that fails half-way, are unspecified',
               'list_schemata always writes its listing to the file named']

DOCS = [
    [docs.HEADER, ('Grp', [('U', b'\5', None), ('Z', 'h\xe9\u20ac<&>"\n\t x'.encode(), None), ('B', bytes(range(90)), None), ('Void', b'abc', None)], None)],
    [docs.HEADER, ('Seg', [('Cl', [('S', b'hi\0x', None), ('B', b'', None)], -8)], 8), ('F', docs.F64, None), ('D', docs.DATE, None)],
    [('I', b'\xff', None), ('EM', [], 2)],
    [],
    [docs.HEADER],
]
SCHEMATA = ['vs', 'vs.xml', './vs', 'sub/../vs.xml', 'ABS', 'ABSX', '{c26pkg}/ps', '{c26pkg}/ps.xml']
BADSCHEMATA = ['nope', 'nope.xml', '{c26pkg}/nope', 'sub', '{c26nope}/vs']
INPUTS = ['ok', 'missing', 'rel', 'spaced', 'bad']
OUTPUTS = [None, 'new', 'exists', './exists', 'sub/../exists', 'link', 'dangling', '~/exists', '~/new', 'sub', 'ABSexists', 'empty']
CLOBBER = [(), ('-c',), ('--clobber',), ('-c', '--clobber')]
E2X = [s + m + e for s in ((), ('-s',)) for m in ((), ('-m',)) for e in ((), ('-e', 'base64'), ('-e', 'hex'), ('-e', 'ignore'))]
E2X += [('--single', '--max', '--encoding', 'hex'), ('--encoding=base64',)]
VIEW = [(), ('-e', 'hex'), ('-e', 'base64'), ('--encoding', 'ignore')]
OPTS = dict(ebml2xml=E2X, view_ebml=VIEW, xml2ebml=[()])
OLD = b'precious data\n' * 40


# ------------------------------------------------------------------ running
def call(tool, argv, cwd):
    """ In a child: run the tool; (status, stdout, stderr). """
    os.chdir(cwd)
    os.environ['HOME'] = cwd
    sys.path.insert(0, os.path.join(cwd, 'mods'))
    importlib.invalidate_caches()
    mod = importlib.import_module('ebmlite.tools.' + tool)
    out, err = os.path.join(os.path.dirname(cwd), 'out'), os.path.join(os.path.dirname(cwd), 'err')
    for fd, name in ((1, out), (2, err)):
        f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(f, fd)
        os.close(f)
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'w', closefd=False)), encoding='utf-8')
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, 'w', closefd=False)), encoding='utf-8', line_buffering=True)
    sys.argv = [tool] + list(argv)
    status = 0
    try:
        mod.main()
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        if isinstance(e.code, str):
            sys.stderr.write(e.code + '\n')
    except BaseException:
        status = 1
        traceback.print_exc()
    try:
        sys.stdout.flush()
    except BaseException:
        status = 120
    with open(out, 'rb') as f, open(err, 'rb') as g:
        return status, f.read(), g.read().decode('utf-8', 'replace')


def command(tool, argv, cwd):
    """ Run the tool as a command of its own. """
    env = dict(os.environ, HOME=cwd, PYTHONPATH=os.pathsep.join([REPO, os.path.join(cwd, 'mods')]), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'ebmlite.tools.' + tool] + list(argv), cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')


def top():
    return os.path.join(scratch(), 'c26-%d' % os.getpid())


def populate():
    base = top()
    shutil.rmtree(base, ignore_errors=True)
    cwd = os.path.join(base, 'w')
    os.makedirs(os.path.join(cwd, 'sub'))
    os.makedirs(os.path.join(cwd, 'mods', 'c26pkg'))
    put(cwd, 'vs.xml', M.VS_XML.encode())
    put(cwd, 'mods/c26pkg/ps.xml', M.VS_XML.encode())
    put(cwd, 'mods/c26pkg/__init__.py', b'')
    put(cwd, 'broken.xml', b'<Schema><UIntegerElement name=')
    put(cwd, 'exists', OLD)
    put(cwd, 'empty', b'')
    os.symlink('exists', os.path.join(cwd, 'link'))
    os.symlink('target', os.path.join(cwd, 'dangling'))
    return cwd


def put(cwd, name, data):
    with open(os.path.join(cwd, name), 'wb') as f:
        f.write(data)


def snapshot(cwd):
    out = {}
    for d, dirs, files in os.walk(cwd):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), cwd)] = 'dir'
        for n in files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, cwd)
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[rel] = f.read()
    return out


# ------------------------------------------------------------------ expected
_vs = None


def vs():
    """ The schema in vs.xml, which has no other name than that of its DocType. """
    global _vs
    if _vs is None:
        _vs = core.parseSchema(M.VS_XML)
    return _vs


def inputs(tool, data):
    """ The contents of the good and the bad input. """
    if tool == 'xml2ebml':
        x = util.toXml(obs.load(data, schema=vs()))
        return ET.tostring(x), b'<VsDocument><Nowhere/></VsDocument>'
    return data, b'\xa0\x84\x01\xff\xff\xff' * 3


def schema_arg(cwd, s):
    return {'ABS': os.path.join(cwd, 'vs'), 'ABSX': os.path.join(cwd, 'vs.xml')}.get(s, s)


def option(opts, *names):
    for i, o in enumerate(opts):
        for n in names:
            if o == n:
                return opts[i + 1] if i + 1 < len(opts) and not opts[i + 1].startswith('-') else True
            if o.startswith(n + '='):
                return o[len(n) + 1:]
    return None


def same_xml(got, want, where, cods):
    require(got.tag == want.tag, '%s: %r instead of %r', where, got.tag, want.tag)
    a, b = dict(got.attrib), dict(want.attrib)
    for k in ('source', 'schemaName', 'schemaFile'):
        a.pop(k, None)
        b.pop(k, None)
    require(a == b, '%s: <%s> has the attributes %r instead of %r', where, got.tag, a, b)
    require(len(got) == len(want), '%s: <%s> has %d children, not %d', where, got.tag, len(got), len(want))
    if 'encoding' in b and b['encoding'] in ('base64', 'hex'):
        c = xml_codecs.BINARY_CODECS[b['encoding']]
        require(bytes(c.decode(got.text or '')) == bytes(c.decode(want.text or '')), '%s: <%s> has the text %r instead of %r', where, got.tag, got.text, want.text)
    else:
        require((got.text or '').strip() == (want.text or '').strip(), '%s: <%s> has the text %r instead of %r', where, got.tag, got.text, want.text)
    for x, y in zip(got, want):
        same_xml(x, y, where, cods)


def judge(tool, opts, out, data, cwd, inp, what):
    """ Is this output the conversion of the data? """
    schema = vs()
    if tool == 'xml2ebml':
        b = io.BytesIO()
        util.xml2ebml(io.BytesIO(inp), b, schema)
        require(out == b.getvalue(), '%s wrote %r instead of %r', what, out[:200], b.getvalue()[:200])
        return
    doc = obs.load(data, schema=vs())
    cod = option(opts, '-e', '--encoding')
    if tool == 'view_ebml':
        s = io.StringIO()
        util.pprint(doc, out=s, binary_codec=cod or 'ignore')
        got, want = out.decode('utf-8').split('\n'), s.getvalue().split('\n')
        require(got[:2] + got[3:] == want[:2] + want[3:] and got[2].split()[:2] == want[2].split()[:2] and got[2].endswith(want[2].partition('(')[2]),
                '%s wrote\n%s\ninstead of\n%s', what, '\n'.join(got), s.getvalue())
        return
    full = bool(option(opts, '-m', '--max'))
    single = bool(option(opts, '-s', '--single'))
    want = util.toXml(doc, offsets=full, sizes=full, types=full, ids=full, binary_codec=cod or 'base64')
    try:
        got = ET.fromstring(out)
    except ET.ParseError as e:
        raise Viol('%s wrote no XML: %s: %r' % (what, e, out[:200]))
    if single:
        require(b'\n' not in out.strip(), '%s wrote several lines: %r', what, out[:300])
    elif len(got):
        require(out.count(b'\n') >= sum(1 for _ in got.iter()), '%s wrote only %d lines', what, out.count(b'\n'))
    want.tag = got.tag
    same_xml(got, want, what, cod)


def run(case, ctx, how):
    tool, sch, inp, outp, clob, opts, d = case
    data = M.build(DOCS[d])[0]
    cwd = populate()
    good, badin = inputs(tool, data)
    ext = '.xml' if tool == 'xml2ebml' else '.ebml'
    name = {'ok': os.path.join(cwd, 'input' + ext), 'rel': 'input' + ext, 'missing': 'missing' + ext, 'spaced': 'sub/in put', 'bad': 'input' + ext}[inp]
    if inp != 'missing':
        put(cwd, name, badin if inp == 'bad' else good)
    argv = [name, schema_arg(cwd, sch)] + list(clob) + list(opts)
    outp = os.path.join(cwd, 'exists') if outp == 'ABSexists' else outp
    if outp is not None:
        argv = (['-o', outp] + argv) if d % 2 else (argv + ['--output', outp])
    before = snapshot(cwd)
    try:
        status, out, err = how(tool, argv, cwd)
        after = snapshot(cwd)
    finally:
        shutil.rmtree(top(), ignore_errors=True)
    what = '%s %s' % (tool, ' '.join(map(repr, argv)))
    ctx.add('evaluations')
    ctx.add('distinct_nontrivial')
    target = {None: None, 'new': 'new', '~/new': 'new', 'sub': 'sub', 'dangling': 'target', 'empty': 'empty'}.get(outp, 'exists')
    exists = target in ('exists', 'sub', 'empty')
    refuse = inp == 'missing' or sch in BADSCHEMATA or sch == 'broken' or exists and not clob or target == 'sub'
    if refuse:
        require(status != 0 and err.strip(), '%s ended with status %r and the message %r', what, status, err)
        require(after == before, '%s changed %r', what, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
        return
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    require(set(changed) <= {target}, '%s changed %r', what, changed)
    if inp == 'bad':
        require(status != 0 and err.strip(), '%s ended with status %r and the message %r though it cannot convert', what, status, err)
        return
    require(status == 0, '%s ended with status %r: %s', what, status, err[-600:])
    if target is None:
        judge(tool, opts, out, data, cwd, good, what)
    else:
        require(out == b'', '%s wrote %r to the standard output', what, out[:100])
        require(isinstance(after.get(target), bytes), '%s did not write %s', what, target)
        judge(tool, opts, after[target], data, cwd, good, what)


# --------------------------------------------------------------- back and forth
def round_trip(specs, opts, files, ctx):
    data, nodes = M.build([docs.HEADER] + specs)
    cwd = populate()
    put(cwd, 'in.ebml', data)
    try:
        argv = ['in.ebml', 'vs'] + list(opts)
        st, out, err = fresh.child(call, 'ebml2xml', argv + (['-o', 'mid.xml'] if files else []), cwd)
        require(st == 0, 'ebml2xml %r: status %r: %s', argv, st, err[-500:])
        if not files:
            put(cwd, 'mid.xml', out)
        st, out, err = fresh.child(call, 'xml2ebml', ['mid.xml', 'vs'] + (['-o', 'back.ebml'] if files else []), cwd)
        require(st == 0, 'xml2ebml after ebml2xml %r: status %r: %s', argv, st, err[-500:])
        back = open(os.path.join(cwd, 'back.ebml'), 'rb').read() if files else out
    finally:
        shutil.rmtree(top(), ignore_errors=True)
    from checks.c13 import norm
    try:
        got = [norm(obs.node_content(n)) for n in M.parse(back, M.VS)[0]]
    except (M.Stop, M.Undecodable) as e:
        raise Viol('%r through ebml2xml %s and back is %r: %s' % (specs, opts, back[:100], e))
    want = [norm(obs.node_content(n)) for n in M.parse(data, M.VS)[0]]
    require(got == want, '%r through ebml2xml %s and back is %r', specs, opts, got)
    ctx.add('evaluations', 2)
    ctx.add('distinct_nontrivial')


LOSSLESS = [o for o in E2X if 'ignore' not in o]


def listing(variant, ctx):
    cwd = populate()
    os.makedirs(os.path.join(cwd, 'other'))
    put(cwd, 'other/zz.xml', M.VS_XML.encode())
    argv, paths, kw = [([], [], {}), (['-r'], [], dict(absolute=False)), (['other'], ['other'], {}), (['--relative', 'other', '{c26pkg}'], ['other', '{c26pkg}'], dict(absolute=False)),
                       (['-o', 'list.txt', 'other'], ['other'], {}), (['{c26pkg}', '--output', 'new.txt'], ['{c26pkg}'], {})][variant]

    def want():
        os.chdir(cwd)
        sys.path.insert(0, os.path.join(cwd, 'mods'))
        importlib.invalidate_caches()
        s = io.StringIO()
        util.printSchemata(paths, out=s, **kw)
        found = core.listSchemata(*paths, *core.SCHEMA_PATH, **kw)
        return s.getvalue(), {k: [str(x) for x in v] for k, v in found.items()}
    try:
        text, found = fresh.child(want)
        st, out, err = fresh.child(call, 'list_schemata', argv, cwd)
        o = option(argv, '-o', '--output')
        if o:
            require(out == b'', 'list_schemata %r wrote %r to the standard output', argv, out)
            out = open(os.path.join(cwd, o), 'rb').read()
    finally:
        shutil.rmtree(top(), ignore_errors=True)
    require(st == 0, 'list_schemata %r: status %r: %s', argv, st, err)
    out = out.decode()
    require(out == text, 'list_schemata %r wrote\n%s\ninstead of\n%s', argv, out, text)
    lines = [x.strip() for x in out.splitlines()]
    for k, v in found.items():
        i = lines.index(k)
        require(lines[i + 1:i + 1 + len(v)] == v, 'list_schemata %r does not list %r under %s:\n%s', argv, v, k, out)
    require(('zz.xml' in found) == ('other' in paths) and ('ps.xml' in found) == ('{c26pkg}' in paths), 'list_schemata %r lists %r', argv, list(found))
    ctx.add('evaluations')
    ctx.add('distinct_nontrivial')


# ------------------------------------------------------------------------ runner
def prepare(tier):
    """ Import now what the tools import of the standard library, once instead of in every child. """
    def loaded(argv, cwd):
        before = set(sys.modules)
        call('ebml2xml', argv, cwd)
        return [m for m in set(sys.modules) - before if m.split('.')[0] in sys.stdlib_module_names]
    try:
        for argv in (['a', '{c26pkg}/ps'], ['w', 'nope'], ['-h']):
            for m in fresh.child(loaded, argv, populate()):
                importlib.import_module(m)
    except Viol:
        pass        # the cases will tell
    finally:
        shutil.rmtree(top(), ignore_errors=True)


def shards(tier):
    return [('c', t, s) for t in OPTS for s in SCHEMATA + BADSCHEMATA + ['broken']] + [('o', t, o) for t in OPTS for o in OUTPUTS] + [('r', i) for i in range(16)] + [('l', 0), ('p', 0), ('p', 1)]


def cases(shard, tier):
    deep = tier == 'thorough'
    kind = shard[0]
    if kind == 'c':
        _, tool, sch = shard
        k = len(sch)
        for inp, outp in itertools.product(INPUTS, OUTPUTS):
            for clob in CLOBBER if deep else CLOBBER[::k % 2 + 1][:2]:
                for opts in OPTS[tool] if deep else [None]:
                    k += 1
                    o = OPTS[tool][k % len(OPTS[tool])] if opts is None else opts
                    yield ('run', tool, sch, inp, outp, clob, o, k % len(DOCS))
    elif kind == 'o':
        _, tool, outp = shard
        for i, o in enumerate(OPTS[tool]):
            for clob in CLOBBER[:2]:
                for d in range(len(DOCS)) if deep or outp in (None, 'new') else [i % 3]:
                    yield ('run', tool, SCHEMATA[(i + d) % 8], 'ok', outp, clob, o, d)
    elif kind == 'r':
        k = 0
        it = itertools.chain(([x] for x in singles()), M.forests(2, docs.MASTERS, docs.LEAVES), M.forests(3, docs.MASTERS[:2], docs.SMALL) if deep else ())
        for i, specs in enumerate(it):
            if i % 16 == shard[1]:
                if not deep and len(specs) + M.count(specs) > 2 and i % 5:
                    continue
                unk = any(isinstance(s[0], int) for s in flat(specs))
                for j in range(len(LOSSLESS)) if deep and M.count(specs) < 2 else [i // 16]:
                    opts = LOSSLESS[j % len(LOSSLESS)]
                    if unk and not option(opts, '-m', '--max'):
                        opts = opts + ('-m',)
                    yield ('trip', specs, opts, i % 2)
    elif kind == 'l':
        for v in range(6):
            yield ('list', v)
    else:
        n = 0
        for tool in OPTS:
            for sch, inp, outp, clob in (('vs', 'ok', None, ()), ('{c26pkg}/ps', 'rel', 'new', ()), ('vs.xml', 'ok', 'exists', ()), ('vs', 'spaced', 'exists', ('-c',)),
                                         ('nope', 'ok', 'exists', ('-c',)), ('vs', 'missing', 'new', ()), ('vs', 'bad', None, ()), ('vs', 'ok', 'link', ())):
                n += 1
                if n % 2 == shard[1]:
                    yield ('command', tool, sch, inp, outp, clob, OPTS[tool][n % len(OPTS[tool])], n % 3)


def singles():
    from checks import c13
    return [s for s in c13.singles()][::3]


def flat(specs):
    for s in specs:
        yield s
        if isinstance(s[1], list):
            yield from flat(s[1])


def in_child(tool, argv, cwd):
    return fresh.child(call, tool, argv, cwd)


def evaluate(case, ctx):
    if case[0] == 'run':
        run(case[1:], ctx, in_child)
    elif case[0] == 'command':
        run(case[1:], ctx, command)
    elif case[0] == 'trip':
        round_trip(*case[1:], ctx)
    else:
        listing(case[1], ctx)
