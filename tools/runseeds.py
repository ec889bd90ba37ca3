"""Runs checks against the planted changes: for each plant, copies /repo to
/tmp, applies patch.diff and runs the quick check(s) with VERIF_REPO set.
Usage: runseeds.py [--all] [--tier T] [id|Cxx ...]   (--all: every check)
Prints one line per plant: which checks reported a violation."""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '--all' in args
tier = 'quick'
if '--tier' in args:
    i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
args = [a for a in args if a != '--all']
checks = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + '/checks/c[0-9]*.py'))
only_new = '--new' in args
args = [a for a in args if a != '--new']
SEEDS = os.environ.get('SEEDS', V + '/seeded')
for d in sorted(glob.glob(SEEDS + '/*/')):
    i = os.path.basename(d[:-1])
    prop = json.load(open(d + 'meta.json'))['property']
    if args and i not in args and prop not in args:
        continue
    if only_new and json.load(open(V + '/tools/caught.json')).get(i):
        continue
    w = '/tmp/rs-%s' % i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        subprocess.run(['git', 'apply', d + 'patch.diff'], cwd=w, check=True)
        got = []
        t0 = time.time()
        for c in (checks if every else [prop]):
            r = subprocess.run(['timeout', '900', V + '/check', c, tier], cwd=V, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER=tier))
            if r.returncode == 1 and ('VIOLATION property=%s ' % c) in r.stdout:
                got.append(c)
            elif r.returncode:
                got.append('%s(rc %d)' % (c, r.returncode))
        f = V + '/tools/caught.json' if SEEDS.startswith(V) else SEEDS + '/caught.json'
        known = json.load(open(f)) if os.path.exists(f) else {}
        known[i] = got if every else [g + '+' for g in got] if not any('+' not in g for g in known.get(i, ['+'])) or not got else known[i]
        json.dump(known, open(f, 'w'), indent=0, sort_keys=True)
        print('%-28s %-4s %s  [%s] %.0fs' % (i, prop, 'CAUGHT' if prop in got else 'MISSED', ' '.join(got), time.time() - t0), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
