""" C18: loading a schema twice gives the same schema, never a wrong or partial one. """
import itertools
import os
import pathlib
import shutil
from mc.base import Viol, require, scratch
from ebmlite import core

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'model checking: all histories of loads, parses, reloads, failing loads and file changes up to a depth, against a model of files and names'
RULE = ('States are histories of operations on a directory of schema files and the schema cache. Every history up to the depth '
        'is executed; after each operation the identity and content of the returned schema (or the failure) is compared with '
        'a model that knows which file each name designates and which instance it gave.')
BOUNDS = dict(quick='all histories of 3 of 47 operations, of 4 of 16', thorough='all histories of 4 of 47 operations, of 5 of 16')


def text(mark):
    return ('<Schema><MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="%s"/></MasterElement>'
            '<UIntegerElement name="%s" id="0x81"/><BinaryElement name="Void" id="0xEC" global="1"/></Schema>') % (mark, mark)


BROKEN = text('Half').replace('<BinaryElement', '<OddElement')

OPS = {
    # load: (name, paths, reload)
    'La': ('L', 'a.xml', None, False), 'Labs': ('L', '@a.xml', None, False), 'Ldot': ('L', './a.xml', None, False), 'Lsub': ('L', 'd1/../a.xml', None, False),
    'Llink': ('L', 'link.xml', None, False), 'Lpath': ('L', ('path', '@a.xml'), None, False), 'Lad': ('L', 'a.xml', ('d1', 'd2'), False),
    'Ld1a': ('L', 'd1/a.xml', None, False), 'Lar': ('L', 'a.xml', None, True), 'Labsr': ('L', '@a.xml', None, True), 'Ladr': ('L', 'a.xml', ('d1',), True),
    'Lb12': ('L', 'b.xml', ('d1', 'd2'), False), 'Lb21': ('L', 'b.xml', ('d2', 'd1'), False), 'Lb1': ('L', 'b.xml', ('d1',), False), 'Lb2': ('L', 'b.xml', ('none', 'd2'), False),
    'Lbr': ('L', 'b.xml', ('d2',), True), 'Lb': ('L', 'b.xml', None, False),
    'Lbad': ('L', 'bad.xml', None, False), 'Lnone': ('L', 'none.xml', None, False), 'Lodd': ('L', 'odd.xml', None, False),
    'Lcase': ('L', 'A.xml', None, False), 'Lcaser': ('L', 'D1/a.XML', None, False), 'Lmarks': ('L', 'a .xml', ('d1',), False),
    'Lend': ('L', 'a.xml.', None, False), 'Lend2': ('L', '@a.xml ', None, False), 'Lend3': ('L', 'a.xml~', ('d1',), False),
    'Lan': ('L', 'a.xml', None, False, {'name': 'own'}), 'Larn': ('L', '@a.xml', None, True, {'name': 'own'}),
    'Lp': ('L', 'p.xml', None, False), 'Lpr': ('L', 'p.xml', None, True), 'Ln': ('L', 'n1', None, False),
    # parse: (name, text, reload)
    'Pp': ('P', 'p.xml', 'Tp', False), 'Ppr': ('P', 'p.xml', 'Tq', True), 'Pn': ('P', 'n1', 'Tn', False), 'Pn2': ('P', 'n1', 'Tm', False), 'Pnr': ('P', 'n1', 'To', True),
    'Pnbad': ('P', 'n1', None, False), 'Pnbadr': ('P', 'n1', None, True),
    # parse without a name: (text or file), and the name it then has
    'Pu': ('U', 'Tu'), 'Pu2': ('U', 'Tu'), 'Puf': ('U', '@a.xml'), 'Pup': ('U', '@p.xml'), 'Lu': ('L', '%Tu', None, False), 'Pun': ('P', '%Tu', 'Tx', False),
    # change files
    'Ea': ('E', 'a.xml', True), 'Xa': ('E', 'a.xml', False), 'Eb': ('E', 'd1/b.xml', True), 'Ra': ('R', 'a.xml'), 'Rb': ('R', 'd1/b.xml'), 'Fbad': ('E', 'bad.xml', True), 'CD': ('C',),
}
CORE = ['La', 'Labs', 'Lad', 'Lar', 'Lb12', 'Lb2', 'Lbr', 'Rb', 'Ea', 'Xa', 'Lpr', 'Ppr', 'Lp', 'Pp', 'Lbad', 'Fbad']
_n = itertools.count()


class World:
    """ The directory, and the model of it. """

    def __init__(self):
        self.k = '%d-%d' % (os.getpid(), next(_n))
        self.root = os.path.join(os.path.realpath(scratch()), 'w' + self.k)
        self.files, self.inst, self.names = {}, {}, {}
        self.ver = 0
        for d in ('', 'd1', 'd2', 'other', 'D1'):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for rel, mark in (('a.xml', 'A0'), ('d1/a.xml', 'DA'), ('d1/b.xml', 'B1'), ('d2/b.xml', 'B2'), ('other/a.xml', 'OA'), ('p.xml', 'PF'), ('A.xml', 'CA'), ('D1/a.XML', 'CX'), ('d1/a .xml', 'DS'), ('a.xml.', 'AD'), ('a.xml ', 'AB'), ('d1/a.xml~', 'DT'), ('bad.xml', None), ('odd.xml', '!')):
            self.write(rel, mark)
        os.symlink(self.name('a.xml'), os.path.join(self.root, self.name('link.xml')))
        self.cwd = self.root
        os.chdir(self.cwd)

    def name(self, rel):
        """ File and schema names are different in every history. """
        if rel[0] == '%':
            return rel[1:] + self.k
        d, _, b = rel.rpartition('/')
        i = b.lower().find('.xml')
        b = b[:i] + '-' + self.k + b[i:] if i > 0 else b + '-' + self.k
        return d + '/' + b if d else b

    def write(self, rel, mark):
        path = os.path.join(self.root, self.name(rel))
        tmp = path + '.new'
        with open(tmp, 'w') as f:
            f.write(BROKEN if mark is None else '<other/>' if mark == '!' else text(mark))
        os.rename(tmp, path)
        self.files[path] = mark

    def real(self, p):
        p = os.path.normpath(p)
        return os.path.join(self.root, self.name('a.xml')) if p == os.path.join(self.root, self.name('link.xml')) else p

    def designated(self, name, paths):
        """ The real path of the file a name designates, or None. """
        real = self.real
        p = real(os.path.join(self.cwd, name))
        if p in self.files:
            return p
        if '/' not in name:
            for d in paths or ():
                q = real(os.path.join(self.cwd, d, name))
                if q in self.files:
                    return q
        return None

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.root)


def content(s):
    return sorted(s.elementsByName), s.type, len(s.children), sorted(s.globals), s.document.__name__


def expect(mark):
    return ['DocType', 'EBML', 'Void', mark] if mark > 'Void' else sorted(['DocType', 'EBML', 'Void', mark]), mark, 3, [0xEC]


class Run:
    def __init__(self):
        self.w = World()
        self.known = set(getattr(core, 'SCHEMATA', ()))
        self.keep = []

    def close(self):
        self.w.close()
        # (the names of every history are its own; the cache would only grow)
        known = getattr(core, 'SCHEMATA', {})
        for k in set(known) - self.known:
            del known[k]

    def judge(self, got, want, mark, what):
        """ want: an earlier instance, or None for a new one with content `mark`. """
        require(not isinstance(got, Exception), '%s failed: %r', what, got)
        if want is not None:
            s, m = want
            require(got is s, '%s gave a schema of %r (%s), not the instance made of %r first', what, content(got)[1], 'new' if all(got is not x for x, _ in self.keep) else 'an earlier one', m)
            mark = m
        else:
            require(all(got is not x for x, _ in self.keep), '%s returned an earlier instance (of %r), not a new one of %r', what, content(got)[1], mark)
            self.keep.append((got, mark))
        c = content(got)
        require(c[:4] == expect(mark), '%s gave a schema of %r, expected %r', what, c, mark)
        return got

    def step(self, op):
        w, o = self.w, OPS[op]
        if o[0] == 'L':
            _, name, paths, reload = o[:4]
            aspath = isinstance(name, tuple)
            name = name[1] if aspath else name
            name = os.path.join(w.root, w.name(name[1:])) if name[0] == '@' else w.name(name)
            arg = pathlib.Path(name) if aspath else name
            plist = [os.path.join(w.root, d) for d in paths] if paths else None
            before = list(plist or ())
            try:
                got = core.loadSchema(arg, reload=reload, paths=plist, **(o[4] if o[4:] else {}))
            except Exception as e:
                got = e
            require(list(plist or ()) == before, 'the list of paths was changed')
            parsed = w.names.get(name)
            if parsed is not None and parsed[2] and not reload:
                self.judge(got, parsed[:2], None, op)
                return
            path = w.designated(name, plist)
            if path is None:
                gone = w.real(os.path.join(w.cwd, name))
                if gone in w.inst and not reload and not isinstance(got, Exception):
                    self.judge(got, w.inst[gone], None, op)     # the file is gone, its schema may remain
                    return
                require(isinstance(got, OSError), '%s: there is no such file, but the result is %r', op, got)
                return
            if path in w.inst and not reload:
                self.judge(got, w.inst[path], None, op)
                return
            mark = w.files[path]
            if mark is None or mark == '!':
                require(isinstance(got, Exception), '%s of a broken schema gave %r', op, got)
                return
            self.judge(got, None, mark, op)
            w.inst[path] = (got, mark)
            w.names[name] = (got, mark, False)
        elif o[0] == 'P':
            _, name, mark, reload = o
            name = w.name(name)
            try:
                got = core.parseSchema(BROKEN if mark is None else text(mark), name, reload=reload)
            except Exception as e:
                got = e
            old = w.names.get(name)
            if old is not None and not reload:
                self.judge(got, old[:2], None, op)
                return
            if mark is None:
                require(isinstance(got, Exception), '%s of a broken schema gave %r', op, got)
                return
            self.judge(got, None, mark, op)
            w.names[name] = (got, mark, True)
        elif o[0] == 'U':
            src = o[1]
            if src[0] == '@':
                path = w.real(os.path.join(w.cwd, w.name(src[1:])))
                mark = w.files.get(path)
                if mark is None:
                    return
                # two equal names of a stream say nothing about what is in it
                with open(w.name(src[1:]), 'rb') as f:
                    got = core.parseSchema(f)
            else:
                mark = src + w.k
                got = core.parseSchema(text(mark))
            # a new one, or one made of the same text
            if any(got is x and m == mark for x, m in self.keep):
                self.judge(got, (got, mark), None, op)
            else:
                self.judge(got, None, mark, op)
            w.names[mark] = (got, mark, True)
        elif o[0] == 'E':
            w.ver += 1
            w.write(o[1], 'E%d' % w.ver if o[2] else None)
        elif o[0] == 'R':
            path = os.path.join(w.root, w.name(o[1]))
            if path in w.files:
                os.remove(path)
                del w.files[path]
        else:
            w.cwd = os.path.join(w.root, 'other') if w.cwd == w.root else w.root
            os.chdir(w.cwd)


def shards(tier):
    return [('a', o, p) for o in OPS for p in OPS] + [('b', o, p) for o in CORE for p in CORE]


def cases(shard, tier):
    names = list(OPS) if shard[0] == 'a' else CORE
    n = {('a', 'quick'): 1, ('b', 'quick'): 2, ('a', 'thorough'): 2, ('b', 'thorough'): 3}[shard[0], tier]
    for t in itertools.product(names, repeat=n):
        if OPS[t[-1]][0] in 'LP':       # a last operation without a result adds nothing
            yield shard[1:] + t


def evaluate(case, ctx):
    r = Run()
    i = -1
    try:
        for i, op in enumerate(case):
            r.step(op)
            ctx.add('transitions')
        ctx.seen('instances', len(r.keep))
    except Viol as e:
        raise Viol('after %s: %s' % (' '.join(case[:i]), e))
    finally:
        r.close()
    ctx.add('states', len(case) + 1)
    ctx.add('traces')
