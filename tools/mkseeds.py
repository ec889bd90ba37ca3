"""Builds /verif/seeded from the plants defined in tools/plants/*.py.

Each plant: dict(id=, prop=, edits=[(file, old, new), ...], demo=python text,
needs=, what=).  For every plant (or those named on the command line):
  * a scratch copy of /repo gets the edits; patch.diff is its git diff
  * at least one removed/changed line must be original (root commit)
  * the repository's stable tests pass in the scratch copy
  * demo.sh exits 0 on /repo and nonzero in the scratch copy
Only then the plant is written to /verif/seeded/<id>/.
Usage: mkseeds.py [--jobs N] [id ...]
"""
import importlib.util, json, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

PREAMBLE = '''\
import io, os, sys, tempfile, threading, warnings
from io import BytesIO, StringIO
from xml.etree import ElementTree as ET
import ebmlite
from ebmlite import core, encoding, decoding, util, threaded_file, xml_codecs
XML = """<Schema>
 <MasterElement name="EBML" id="0x1A45DFA3" mandatory="1" multiple="1">
  <UIntegerElement name="EBMLVersion" id="0x4286" default="1"/>
  <UIntegerElement name="EBMLReadVersion" id="0x42F7" default="1"/>
  <StringElement name="DocType" id="0x4282" default="seed"/>
  <UIntegerElement name="DocTypeVersion" id="0x4287" default="0"/>
  <UIntegerElement name="DocTypeReadVersion" id="0x4285" default="2"/>
  <BinaryElement name="Void" global="1" id="0xEC" multiple="1"/>
 </MasterElement>
 <MasterElement name="M" id="0xA0" multiple="1">
  <MasterElement name="M2" id="0xA1" multiple="1">
    <UIntegerElement name="U2" id="0xB9" multiple="1"/>
  </MasterElement>
  <UIntegerElement name="U" id="0xB0" multiple="1"/>
  <IntegerElement name="I" id="0xB1" multiple="1"/>
  <FloatElement name="F" id="0xB2" multiple="1"/>
  <StringElement name="S" id="0xB3" multiple="1"/>
  <UnicodeElement name="X" id="0xB4" multiple="1"/>
  <DateElement name="D" id="0xB5" multiple="1"/>
  <BinaryElement name="B" id="0xB6" multiple="1"/>
  <UIntegerElement name="UL" id="0xB7" multiple="1" length="4"/>
  <UIntegerElement name="U1" id="0xB8"/>
 </MasterElement>
 <UnicodeElement name="T" id="0xBA" multiple="1"/>
 <MasterElement name="One" id="0xBB"><UIntegerElement name="N" id="0xBC" precache="0"/></MasterElement>
</Schema>"""
def schema(name="seedschema", xml=XML):
    return core.parseSchema(xml, name=name)
def el(ident, payload, sz=None):
    return encoding.encodeId(ident) + encoding.encodeSize(len(payload), sz) + payload
def raises(exc, fn, *a, **k):
    try:
        fn(*a, **k)
    except exc:
        return True
    raise AssertionError("no %r" % (exc,))
'''


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/plants/*.py')):
        spec = importlib.util.spec_from_file_location('plants', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.PLANTS
    ids = [p['id'] for p in out]
    assert len(set(ids)) == len(ids), 'duplicate ids'
    return out


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def original_lines(path, root):
    o = run(['git', 'blame', '-s', '--porcelain', 'HEAD', '--', path], cwd=REPO).stdout
    res = {}
    for l in o.splitlines():
        p = l.split(' ')
        if len(p[0]) == 40 and len(p) >= 3 and p[1].isdigit():
            cur, no = p[0], int(p[2])
            res[no] = cur == root
    return res


def process(p):
    work = '/tmp/seed-%s' % p['id']
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(REPO, work, symlinks=True)
    try:
        for f, old, new in p['edits']:
            path = os.path.join(work, f)
            t = open(path, newline='').read()
            if t.count(old) != 1:
                return p['id'], 'BAD edit: %d matches of %r in %s' % (t.count(old), old[:60], f)
            open(path, 'w', newline='').write(t.replace(old, new))
        diff = run(['git', 'diff', '-U3'], cwd=work).stdout
        root = run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=REPO).stdout.strip()
        ok = False
        cur = None
        for l in run(['git', 'diff', '-U0'], cwd=work).stdout.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
                orig = original_lines(cur, root)
            elif l.startswith('@@'):
                r = l.split(' ')[1][1:].split(',')
                start, n = int(r[0]), int(r[1]) if len(r) > 1 else 1
                ok = ok or any(orig.get(i) for i in range(start, start + n))
        if not ok and not ANY:
            return p['id'], 'BAD: changes no original line'
        dest = '/tmp/seedout-%s' % p['id']
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        open(dest + '/patch.diff', 'w').write(diff)
        open(dest + '/demo.py', 'w').write(PREAMBLE + p['demo'])
        open(dest + '/demo.sh', 'w').write(
            '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 '
            '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(dest + '/demo.sh', 0o755)
        json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['what']),
                  open(dest + '/meta.json', 'w'), indent=1)
        a = run(['bash', dest + '/demo.sh'], cwd=REPO)
        if a.returncode:
            return p['id'], 'BAD demo fails on the tree: ' + a.stdout[-600:]
        b = run(['bash', dest + '/demo.sh'], cwd=work)
        if not b.returncode:
            return p['id'], 'BAD demo passes with the patch'
        base = json.load(open('/opt/vp/BASELINE.json'))
        rep = dest + '/junit.xml'
        run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o',
             'junit_family=xunit2', '--junitxml=' + rep, './tests'], cwd=work,
            env=dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                     GITHUB_ACTIONS='true', PATH='/opt/venv/bin:' + os.environ['PATH']))
        res = dest + '/res.json'
        run(['python3', '/opt/vp/results.py', res, 'junit:' + rep])
        passed = set(json.load(open(res))['passed'])
        os.unlink(rep), os.unlink(res)
        lost = [x for x in base['stable'] if x not in passed]
        if lost:
            return p['id'], 'BAD tests: %s' % lost[:4]
        final = os.path.join(VERIF, 'seeded', p['id']) if ok else '/tmp/anyseeds/' + p['id']
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dest, final)
        shutil.rmtree(dest)
        return p['id'], 'ok  ' + (b.stdout.strip().splitlines() or ['?'])[-1][:100]
    finally:
        shutil.rmtree(work, ignore_errors=True)


ANY = '--any' in sys.argv      # also (in /tmp/anyseeds) those that change no original line, and so cannot count

if __name__ == '__main__':
    want = [a for a in sys.argv[1:] if a != '--any']
    ps = [p for p in load() if not want or p['id'] in want or p['prop'] in want]
    os.makedirs(VERIF + '/seeded', exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(process, ps):
            print('%-28s %s' % (i, r), flush=True)
