"""Systematic mutation of /repo/ebmlite, as a source of planted bugs written by nobody.
Usage: mutate.py tests OUT.json        every mutant that passes the repository's tests
       mutate.py checks OUT.json RES   runs the quick checks on each until one reports a violation
Each mutant changes one expression or drops one statement. All in copies below /tmp."""
import ast, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['core.py', 'decoding.py', 'encoding.py', 'util.py', 'xml_codecs.py', 'threaded_file.py', 'tools/utils.py', 'tools/ebml2xml.py', 'tools/xml2ebml.py', 'tools/view_ebml.py', 'tools/list_schemata.py']
# The order in which the checks are tried on a mutant of a file.
ALL = ['C%02d' % i for i in range(1, 33)]
FIRST = {'core.py': 'C05 C10 C25 C17 C27 C29 C24 C20 C08 C07 C06 C18 C11 C09 C19 C14 C13 C12 C22 C16 C28 C23 C26', 'decoding.py': 'C01 C03 C02 C05 C04 C10 C11', 'encoding.py': 'C01 C02 C03 C04 C08 C07',
         'util.py': 'C13 C14 C24 C02 C26 C19 C16 C12', 'xml_codecs.py': 'C15 C13 C14 C24 C26', 'threaded_file.py': 'C22 C21 C23'}
NOT = {'core.py': 'C01 C02 C03 C04 C15 C21', 'xml_codecs.py': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C17 C18 C19 C20 C21 C22 C23 C25 C27 C28 C29 C31',
       'threaded_file.py': ' '.join(c for c in ALL if c not in ('C21', 'C22', 'C23', 'C05', 'C20', 'C16')), 'decoding.py': 'C15 C17 C18 C19 C21 C22 C23 C28', 'encoding.py': 'C15 C17 C18 C19 C21 C22 C23 C28 C05 C06 C09 C10 C11',
       'util.py': 'C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C15 C17 C18 C20 C21 C22 C23 C25 C27 C28 C29'}
SWAP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*'}


def mutants(src):
    lines = src.split('\n')
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def sub(n, new, what):
        a, b = span(n)
        return n.lineno, '%s: %s -> %s' % (what, ' '.join(text(n).split())[:70], ' '.join(new.split())[:70]), (raw[:a] + new.encode() + raw[b:]).decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    ann = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            if getattr(n, f, None) is not None:
                ann.update(ast.walk(getattr(n, f)))
    for n in ast.walk(tree):
        if n in docs or n in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in SWAP.get(type(n.ops[0]), []):
                yield sub(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield sub(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                op2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                yield sub(n, '(' + op2.join('(%s)' % text(v) for j, v in enumerate(n.values) if j != i) + ')', 'part')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield sub(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH and not (isinstance(n.op, (ast.Mod, ast.Add)) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', ''), str)):
            yield sub(n, '(%s) %s (%s)' % (text(n.left), ARITH[type(n.op)], text(n.right)), 'arith')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield sub(n, repr(not n.value), 'const')
            elif isinstance(n.value, int):
                yield sub(n, repr(n.value + 1), 'const')
                yield sub(n, '(%r)' % (n.value - 1), 'const')
            elif n.value is None:
                yield sub(n, '0', 'const')
            elif isinstance(n.value, (str, bytes)) and n.value and len(n.value) < 12:
                yield sub(n, repr(n.value + n.value[:1]), 'const')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield sub(n.test, 'not (%s)' % text(n.test), 'cond')
            if not isinstance(n.test, ast.Constant):
                yield sub(n.test, 'True', 'cond')
                yield sub(n.test, 'False', 'cond')
        elif isinstance(n, ast.Break):
            yield sub(n, 'continue', 'stmt')
        elif isinstance(n, ast.Continue):
            yield sub(n, 'break', 'stmt')
        elif isinstance(n, ast.Return) and n.value is not None:
            yield sub(n.value, 'None', 'return')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield sub(n.type, 'ZeroDivisionError', 'except')
            yield sub(n.type, 'Exception', 'except')
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    yield sub(n.type, '(%s,)' % ', '.join(text(e) for j, e in enumerate(n.type.elts) if j != i), 'except')
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                a, b = start[k.lineno - 1] + k.col_offset, start[k.end_lineno - 1] + k.end_col_offset
                end = b
                while raw[end:end + 1] in (b' ', b'\n', b','):
                    end += 1
                yield n.lineno, 'call: drop %s' % text(k), (raw[:a] + raw[end:]).decode()
            if len(n.args) > 1:
                for i in range(len(n.args) - 1):
                    a, b = span(n.args[i])[0], span(n.args[i + 1])[1]
                    mid = raw[span(n.args[i])[1]:span(n.args[i + 1])[0]].decode()
                    yield n.lineno, 'call: swap %s, %s' % (text(n.args[i])[:30], text(n.args[i + 1])[:30]), (raw[:a].decode() + text(n.args[i + 1]) + mid + text(n.args[i]) + raw[b:].decode())
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for f in ('lower', 'upper'):
                v = getattr(n.slice, f)
                if v is not None:
                    yield sub(v, '', 'slice')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and n.lineno and n.col_offset:
            yield sub(n, 'pass', 'drop')


def all_mutants():
    seen = set()
    for f in FILES:
        src = open('/repo/ebmlite/' + f).read()
        for line, what, new in mutants(src):
            if new == src or (f, new) in seen:
                continue
            seen.add((f, new))
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                continue
            yield f, line, what, new


def tests(out, workers=7):
    todo = list(all_mutants())
    print(len(todo), 'mutants', flush=True)
    q = Queue()
    for i in range(workers):
        w = '/tmp/mt/w%d' % i
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        q.put(w)
    names = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', GITHUB_ACTIONS='true', HOME='/tmp/mt', LANG='C.UTF-8', PATH='/opt/venv/bin:' + os.environ['PATH'])

    def one(m):
        f, line, what, new = m
        w = q.get()
        try:
            p = w + '/ebmlite/' + f
            old = open('/repo/ebmlite/' + f).read()
            open(p, 'w').write(new)
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', './tests', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=40', '--deselect', 'tests/test_tools.py::test_ebml2xml[subprocess]', '--deselect', 'tests/test_tools.py::test_xml2ebml[subprocess]', '--deselect', 'tests/test_tools.py::test_ebml2xml', '--deselect', 'tests/test_tools.py::test_xml2ebml'], cwd=w, env=dict(env, PYTHONPATH=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120).returncode
            except subprocess.TimeoutExpired:
                r = 99
            open(p, 'w').write(old)
            return r == 0
        finally:
            subprocess.run(['git', 'clean', '-fdq', 'tests'], cwd=w)
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w)
            q.put(w)
    keep = []
    with ThreadPoolExecutor(workers) as ex:
        for n, (m, ok) in enumerate(zip(todo, ex.map(one, todo))):
            if ok:
                keep.append(m)
            if n % 100 == 0:
                print(n, len(keep), flush=True)
                json.dump(keep, open(out, 'w'))
    json.dump(keep, open(out, 'w'))
    print('survive', len(keep))


def checks(out, res, step='1', workers='3', cap='1000'):
    """ The checks are tried in the order of their success on mutants of the same file. """
    import collections, threading
    todo = json.load(open(out))[::int(step)]
    done = json.load(open(res)) if os.path.exists(res) else {}
    lock, hits, q = threading.Lock(), collections.Counter(), Queue()
    for key, got in done.items():
        if got:
            hits[key.split(':')[0], got[:3]] += 1
    for n in range(int(workers)):
        q.put('/tmp/mt/c%d' % n)
    try:
        cost = {k: v[0] for k, v in json.load(open(V + '/tools/costs.json')).items()}
    except (OSError, ValueError):
        cost = {}

    def one(m):
        f, line, what, new = m
        key = '%s:%d %s' % (f, line, what)
        if key in done:
            return
        w = q.get()
        try:
            shutil.rmtree(w, ignore_errors=True)
            shutil.copytree('/repo', w, symlinks=True)
            open(w + '/ebmlite/' + f, 'w').write(new)
            first = FIRST.get(f, 'C26 C16').split()
            order = first + [c for c in ALL if c not in first and c not in NOT.get(f, '').split()]
            order = [c for c in order if cost.get(c, 10) <= int(cap)]
            order.sort(key=lambda c: -(hits[f, c] + .3) / (cost.get(c, 10) + 2))
            got = None
            for c in order:
                r = subprocess.run(['timeout', '600', V + '/check', c, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
                if r.returncode:
                    got = '%s rc %d %s' % (c, r.returncode, ' '.join(r.stdout.split('---')[-1].split())[:200])
                    break
            with lock:
                done[key] = got
                if got:
                    hits[f, got[:3]] += 1
                print(('caught ' if got else 'MISSED ') + key + '   ' + (got or ''), flush=True)
                json.dump(done, open(res, 'w'), indent=0)
        finally:
            q.put(w)
    with ThreadPoolExecutor(int(workers)) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    os.makedirs('/tmp/mt', exist_ok=True)
    {'tests': tests, 'checks': checks}[sys.argv[1]](*sys.argv[2:])
