""" C19: schema search finds the first match, and the listing agrees with it. """
import importlib
import io
import itertools
import os
import pathlib
import sys
import zipfile
from mc.base import require, scratch
from mc.fresh import child, purge
from ebmlite import core, util

ID = 'C19'
LEVEL = 'bounded_exhaustive'
TECHNIQUE = 'explicit enumeration of all search paths over 15 kinds of location x all placements of a file over 7 places, against a model of the search'
RULE = ('A case is a search path: an ordered sequence of locations (directories as text (one with a leading dot, blanks and other characters in its name), Path, relative or with a trailing slash, package references in every '
        'form, a module, a zipped package, missing directories and packages, a file). For each, two file names per subset of the places (254, and one of links; of which one has directories of that name everywhere else) are '
        'searched and listed: the file loaded must be the first in order, and the listing must give the same files in the same order.')
BOUNDS = dict(quick='all sequences of up to 2 of 15 locations, of 3 of 7; with EBMLITE_SCHEMA_PATH of up to 2 of 8 locations; names below the home directory',
              thorough='all sequences of up to 3 of 15 locations, of 4 of 7; with EBMLITE_SCHEMA_PATH of up to 3 of 8 locations')

DIRS = ['cwd', 'A', 'B', 'rel', 'mcpk', 'mcpk/sub', 'mczp']
# location -> the place it stands for
KINDS = {'': 'cwd', '@A': 'A', 'PA': 'A', '@B': 'B', '@B/': 'B', 'rel': 'rel', '{mcpk}': 'mcpk', 'M': 'mcpk', '{mcpk.sub}': 'mcpk/sub', '{mcpk}/sub': 'mcpk/sub',
         '{mczp}': 'mczp', '@missing': None, '@A/full-127.xml': None, '{mcnope}': None, '{mcpk.nope}': None}
FEW = ['', '@A', '@B', '{mcpk}', '{mcpk.sub}', '@missing', '{mcnope}']
ENV = ['', '@A', '@B', 'rel', '{mcpk}', '{mcpk}/sub', '@missing', '{mcnope}']
ODD = {'text.xml': b'hello', 'empty.xml': b'', 'other.xml': b'<html/>', 'half.xml': b'<Schema><UIntegerElement ', 'bogus.xml': b'<?xml version="1.0" encoding="bogus"?><Schema/>',
       'wide.xml': b'<?xml version="1.0" encoding="utf-7"?><Schema/>', 'binary.xml': bytes(range(256)), 'notes.txt': b'<Schema/>', 'lower.xml': b'<schema/>'}
# The second file of each subset has directories of that name in all the other places.
NAMES = ['full-%d.xml' % m for m in range(1, 128)] + ['fold-%d.xml' % m for m in range(1, 128)]
UPPER = 'Upper.XML'
ALIAS = 'alias.xml'     # a link to a file of another name, elsewhere


def place(i):
    """ The path of the directory of a place. """
    root = os.path.realpath(scratch())
    return {'cwd': root + '/cwd', 'A': root + '/.A b,c;d$e~#%20\xe9', 'B': root + '/B', 'rel': root + '/cwd/rel', 'mcpk': root + '/lib/mcpk', 'mcpk/sub': root + '/lib/mcpk/sub',
            'mczp': root + '/lib/z.zip/mczp'}[i]


def text(mark):
    if mark in ('B', 'mcpk'):       # the legacy format
        return ('<table><element name="EBML" level="0" id="0x1A45DFA3" type="master"/>'
                '<element name="DocType" level="1" id="0x4282" type="string" default="%s"/></table>' % mark)
    return '<Schema><MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="%s"/></MasterElement></Schema>' % mark


def prepare(tier):
    root = os.path.realpath(scratch())
    for d in DIRS[:-1]:
        os.makedirs(place(d))
    with zipfile.ZipFile(root + '/lib/z.zip', 'w') as z:
        z.writestr('mczp/__init__.py', '')
        for m in range(1, 128):
            for i, d in enumerate(DIRS):
                for name in ('full-%d.xml' % m, 'fold-%d.xml' % m):
                    if m >> i & 1:
                        if d == 'mczp':
                            z.writestr('mczp/' + name, text(d))
                        else:
                            with open(place(d) + '/' + name, 'w') as f:
                                f.write(text(d))
                    elif name[:4] == 'fold':
                        if d == 'mczp':
                            z.writestr('mczp/%s/' % name, '')
                        else:
                            os.mkdir(place(d) + '/' + name)
    for d in ('mcpk', 'A'):
        with open(place(d) + '/' + UPPER, 'w') as f:
            f.write(text(d))
    os.mkdir(root + '/store')
    for d in ('B', 'mcpk', 'rel'):
        with open(root + '/store/%s.data' % d, 'w') as f:
            f.write(text(d))
        os.symlink(root + '/store/%s.data' % d, place(d) + '/' + ALIAS)
    open(place('mcpk') + '/__init__.py', 'w').close()
    for k, v in ODD.items():
        with open(place('A') + '/' + k, 'wb') as f:
            f.write(v)
    os.mkdir(place('A') + '/folder.xml')
    os.symlink('/nonexistent/file', place('A') + '/dangling.xml')
    with open(place('B') + '/matroska.xml', 'w') as f:
        f.write(text('B'))
    sys.path[:0] = [root + '/lib', root + '/lib/z.zip']
    importlib.invalidate_caches()
    os.chdir(place('cwd'))


def spell(k):
    """ The location as given to the library. """
    root = os.path.realpath(scratch())
    if k == 'PA':
        return pathlib.Path(place('A'))
    if k == 'M':
        return importlib.import_module('mcpk')
    if k[:2] == '@A':
        return place('A') + k[2:]
    return root + '/' + k[1:] if k[:1] == '@' else k


def locations(seq):
    """ The places a search path visits, each once. """
    return list(dict.fromkeys(KINDS[k] for k in seq if KINDS[k]))


def has(d, name):
    if name == UPPER:
        return d in ('mcpk', 'A')
    if name == ALIAS:
        return d in ('B', 'mcpk', 'rel')
    return int(name[5:-4]) >> DIRS.index(d) & 1


def found(seq, name):
    """ All files of a name on a search path, in order. """
    return [place(d) + '/' + name for d in locations(seq) if has(d, name)]


def first(seq, name):
    return next(iter(found(('',) + seq, name)), None)


def check_load(mod, seq, name, **kw):
    want = first(seq, name)
    try:
        got = mod.loadSchema(name, **kw)
    except OSError:
        require(want is None, 'loadSchema(%r) does not find %s on the path %r', name, want, seq)
        return
    require(want is not None, 'loadSchema(%r) gives %s, though the path %r has no such file', name, got.filename, seq)
    if name == ALIAS:
        require(os.path.realpath(got.filename) == os.path.realpath(want) and place(got.type) == os.path.dirname(want), 'loadSchema(%r) loaded %s, the first on the path %r is %s', name, got.filename, seq, want)
        return
    require(got.filename == want, 'loadSchema(%r) loaded %s, the first on the path %r is %s', name, got.filename, seq, want)
    mark = got.type
    require(place(mark) == os.path.dirname(want), 'loadSchema(%r) loaded the content of %r as %s', name, mark, got.filename)


def dedupe(paths):
    return list(dict.fromkeys(paths))


def full(p):
    return os.path.normpath(os.path.join(place('cwd'), str(p)))


def check_list(seq, got, what, builtin=False):
    names = NAMES + [UPPER, ALIAS]
    for name in names:
        want = found(seq, name)
        have = dedupe([full(p) for p in got.get(name, ())])
        if name == ALIAS:
            want, have = [os.path.realpath(p) for p in want], [os.path.realpath(p) for p in have]
        require(have == want, '%s gives %r for %s, the path %r has %r', what, have, name, seq, want)
    extra = set(got) - set(names)
    if builtin:
        extra -= {'matroska.xml', 'mide_ide.xml', 'mide_manifest.xml', 'mide_config_ui.xml'}
    want = {'matroska.xml'} if 'B' in locations(seq) and not builtin else set()
    require(extra == want, '%s lists %r', what, sorted(extra ^ want))


def parse_print(s):
    out, cur = {}, None
    for line in s.splitlines():
        if line[:1].strip():
            cur = out.setdefault(line, [])
        else:
            cur.append(line.strip())
    return out


def as_text(d):
    return {k: [str(p) for p in v] for k, v in d.items()}


def evaluate(case, ctx):
    os.chdir(place('cwd'))
    if case[0] == 'env':
        nloc, nload = child(_env, case[1])
        ctx.add('evaluations', nload)
        ctx.add('distinct_nontrivial', nloc)
        return
    if case[0] == 'home':
        return home(case[1], ctx)
    if case[0] == 'moving':
        moving(ctx)
        return changing(ctx)
    if case[0] == 'direct':
        return direct(case[1], ctx)
    seq = case[1]
    paths = [spell(k) for k in seq]
    old = list(core.SCHEMA_PATH)
    try:
        core.SCHEMATA.clear()
        if case[0] == 'paths':
            kw = dict(paths=list(paths))
            got = core.listSchemata(*paths)
        else:
            core.SCHEMA_PATH[:] = paths
            kw = {}
            got = core.listSchemata()
        for name in NAMES + [UPPER, ALIAS, 'full-0.xml']:
            if name != 'full-0.xml':
                check_load(core, seq, name, **kw)
            else:
                try:
                    r = core.loadSchema(name, **kw)
                except OSError:
                    pass
                else:
                    require(False, 'loading a file found nowhere gave %r', r.filename)
            ctx.add('evaluations')
        # A name with a directory is not searched for.
        for name in ('sub/full-127.xml', 'nodir/full-127.xml'):
            try:
                r = core.loadSchema(name, **kw)
            except OSError:
                continue
            require(False, 'loadSchema(%r) with the path %r gave %s', name, seq, r.filename)
        check_list(seq, got, 'listSchemata()')
        ctx.add('distinct_nontrivial', sum(1 for n in NAMES if found(seq, n)))
        if seq[:1] == ('',):
            for name, files in got.items():
                if name in NAMES:
                    s = core.loadSchema(name, **kw)
                    require(s.filename == str(files[0]) or s.filename == full(files[0]), 'the listing begins with %r, loading %s gives %s', files[0], name, s.filename)
        # relative listings name the same files
        rel = core.listSchemata(*(paths if case[0] == 'paths' else ()), absolute=False)
        require({k: len(v) for k, v in rel.items()} == {k: len(v) for k, v in got.items()}, 'listSchemata(absolute=False) has other entries')
        for name in ('full-127.xml', 'full-86.xml', UPPER):
            for a, b in zip(rel.get(name, ()), got.get(name, ())):
                s = core.loadSchema(str(a))
                require(s.filename == full(b), 'listSchemata(absolute=False) gives %r, which loads %s, not %s', str(a), s.filename, b)
        # printing
        if case[0] == 'paths':
            core.SCHEMA_PATH[:] = [spell('@B')]
            buf = io.StringIO()
            arg = list(paths)
            util.printSchemata(arg, out=buf)
            require(arg == paths, 'printSchemata() changed the list of paths')
            check_list(seq + ('@B',), parse_print(buf.getvalue()), 'printSchemata()')
            out = os.path.join(scratch(), 'list-%d.txt' % os.getpid())
            util.printSchemata(arg, out=out, absolute=False)
            with open(out) as f:
                shown = parse_print(f.read())
            os.remove(out)
            require(shown == as_text(core.listSchemata(*paths, spell('@B'), absolute=False)), 'printSchemata(absolute=False) differs from listSchemata()')
    finally:
        core.SCHEMA_PATH[:] = old


def home(d, ctx):
    """ Files in the user's home directory. """
    old = os.environ.get('HOME')
    os.environ['HOME'] = os.path.dirname(place(d))
    base = os.path.basename(place(d))
    try:
        for name in NAMES[:127:9] + NAMES[-1:]:
            for arg in ('~/%s/%s' % (base, name), pathlib.Path('~') / base / name, '~/%s/../%s/%s' % (base, base, name)):
                for paths in (None, [spell('@B')], ['~']):
                    core.SCHEMATA.clear()
                    ctx.add('evaluations')
                    try:
                        s = core.loadSchema(arg, paths=paths)
                    except OSError:
                        require(not has(d, name), 'loadSchema(%r) does not find %s in the home directory', arg, place(d))
                        continue
                    require(has(d, name) and s.filename == place(d) + '/' + name and s.type == d, 'loadSchema(%r) gave %s', arg, s.filename)
                    require(core.loadSchema(place(d) + '/' + name) is s, 'loading %s by its full name gives another schema', s.filename)
                    ctx.add('distinct_nontrivial')
    finally:
        if old is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old


def moving(ctx):
    """ Changing the current directory between searches. """
    spots = ('cwd', 'A', 'B', 'rel')
    old = list(core.SCHEMA_PATH)
    try:
        for order in itertools.permutations(spots, 3):
            for paths in ([''], ['', spell('@B')], ['.'], [spell('@B'), '']):
                core.SCHEMA_PATH[:] = paths
                core.SCHEMATA.clear()
                for d in order + order[:2]:
                    os.chdir(place(d))
                    seq = [d if p in ('', '.') else 'B' for p in paths]
                    for kw in ({}, dict(paths=list(paths))):
                        got = core.listSchemata(*kw.get('paths', ()))
                        for name in NAMES[::7]:
                            want = [place(k) + '/' + name for k in dict.fromkeys(seq) if has(k, name)]
                            have = dedupe([os.path.realpath(str(p)) for p in got.get(name, ())])
                            require(have == want, 'in %s, with the path %r, %s is listed as %r', place(d), paths, name, have)
                            want = [place(k) + '/' + name for k in dict.fromkeys([d] + seq) if has(k, name)]
                            try:
                                s = core.loadSchema(name, **kw)
                            except OSError:
                                require(not want, 'in %s, with the path %r, %s is not found', place(d), paths, name)
                            else:
                                require(want and s.filename == want[0], 'in %s, with the path %r, loading %s gives %s', place(d), paths, name, s.filename)
                            ctx.add('evaluations')
                    ctx.add('distinct_nontrivial')
    finally:
        core.SCHEMA_PATH[:] = old
        os.chdir(place('cwd'))


def changing(ctx):
    """ Files that come and go between searches. """
    old = list(core.SCHEMA_PATH)
    ds = [os.path.join(os.path.realpath(scratch()), 'change-%d-%d' % (os.getpid(), i)) for i in range(3)]
    for d in ds:
        os.makedirs(d)

    def become(n):
        for i, d in enumerate(ds):
            if n >> i & 1:
                with open(d + '/come.xml', 'w') as f:
                    f.write(text('A'))
            elif os.path.exists(d + '/come.xml'):
                os.remove(d + '/come.xml')
    try:
        for states in itertools.product(range(8), repeat=2):
            core.SCHEMATA.clear()
            core.SCHEMA_PATH[:] = ds
            for n in states + states[:1]:
                become(n)
                want = [d + '/come.xml' for i, d in enumerate(ds) if n >> i & 1]
                for kw in ({}, dict(paths=ds)):
                    got = [str(p) for p in core.listSchemata(*kw.get('paths', ())).get('come.xml', ())]
                    require(got == want, 'after changes, %r is listed, not %r', got, want)
                    try:
                        s = core.loadSchema('come.xml', **kw)
                    except OSError:
                        require(not want, '%r is not found any more', want)
                    else:
                        require(want and s.filename == want[0], 'after changes, %s is loaded, there is %r', s.filename, want)
                    ctx.add('evaluations')
                ctx.add('distinct_nontrivial')
    finally:
        become(0)
        core.SCHEMA_PATH[:] = old


def direct(kind, ctx):
    """ A name that includes its location. """
    if kind == 'M':
        return
    for name in NAMES:
        d = KINDS[kind]
        core.SCHEMATA.clear()
        base = str(spell(kind))
        arg = base + '/' + name if base else name
        ctx.add('evaluations')
        for a in (arg, pathlib.Path(arg)):
            try:
                s = core.loadSchema(a, paths=[spell('@B')])
            except (OSError, ImportError) as e:
                require(not d or not has(d, name) and (base or not has('B', name)), 'loadSchema(%r) failed: %r', a, e)
                continue
            if not base and not has(d, name):
                d2 = 'B'
            else:
                d2 = d
            require(d2 and has(d2, name), 'loadSchema(%r) gave %s, which was not asked for', a, s.filename)
            require(s.filename == place(d2) + '/' + name and s.type == d2, 'loadSchema(%r) gave %s of %s', a, s.filename, s.type)
            ctx.add('distinct_nontrivial')


def _env(seq):
    """ A fresh import with the environment variable set. """
    purge()
    os.environ['EBMLITE_SCHEMA_PATH'] = os.pathsep.join(str(spell(k)) for k in seq)
    new = importlib.import_module('ebmlite.core')
    require(new is not core, 'not a fresh import')
    seq = ('',) + seq
    n = 0
    for name in NAMES + [UPPER, ALIAS]:
        check_load(new, seq, name)
        n += 1
    got = new.listSchemata()
    check_list(seq, got, 'listSchemata()', builtin=True)
    lib = os.path.join(os.path.dirname(os.path.realpath(new.__file__)), 'schemata')
    # The built-in schemata come first.
    want = [os.path.join(lib, 'matroska.xml')] + [place('B') + '/matroska.xml'] * ('B' in locations(seq))
    have = [os.path.realpath(str(p)) for p in got.get('matroska.xml', ())]
    require(dedupe(have) == want, 'with the environment variable %r, matroska.xml is listed as %r, expected %r', seq, have, want)
    s = new.loadSchema('matroska.xml')
    require(os.path.realpath(s.filename) == want[0], 'with the environment variable %r, matroska.xml is loaded from %s', seq, s.filename)
    return sum(1 for x in NAMES if found(seq, x)), n


def shards(tier):
    return [('paths', k) for k in [None] + list(KINDS)] + [('global', k) for k in KINDS] + [('few', k) for k in FEW] + [('env', k) for k in [None] + ENV] + [('direct', None), ('home', None), ('moving', None)]


def cases(shard, tier):
    deep = tier == 'thorough'
    kind, k = shard
    if kind == 'direct':
        for k in KINDS:
            yield ('direct', k)
    elif kind == 'moving':
        yield ('moving',)
    elif kind == 'home':
        for d in ('A', 'B', 'mcpk', 'cwd'):
            yield ('home', d)
    elif k is None:
        yield (kind, ())if kind == 'env' else (kind, ('@missing',))
    elif kind == 'paths':
        for n in range(3 if deep else 2):
            for t in itertools.product(KINDS, repeat=n):
                yield ('paths', (k,) + t)
    elif kind == 'global':
        for n in range(2):
            for t in itertools.product(KINDS, repeat=n):
                yield ('global', (k,) + t)
    elif kind == 'few':
        for t in itertools.product(FEW, repeat=3 if deep else 2):
            yield ('paths', (k,) + t)
    else:
        for n in range(3 if deep else 2):
            for t in itertools.product(ENV, repeat=n):
                yield ('env', (k,) + t)
