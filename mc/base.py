"""
Check runner: shards an exhaustively enumerated case space over forked worker
processes, evaluates every case against the real code, collects counts, writes
evidence and replay files, and applies the known-findings file.

A check module in checks/ provides

    ID, LEVEL, RULE           strings
    shards(tier)              -> list of shard descriptors (python literals)
    cases(shard, tier)        -> iterator of case descriptors (python literals)
    evaluate(case, ctx)       -> None; raises Viol (or anything) if the property fails

`evaluate` must be a pure function of (case, code under test): a violation is
replayed from its case descriptor alone.
"""
import ast
import glob
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU_LIMIT = 30.0
MAX_VIOL_PER_WORKER = 3


class Viol(Exception):
    """ The property failed on this case. `key` identifies the specific
        failing input for the known-findings file. """

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    """ A fault of the machinery itself, not of the code under test. """


class Ctx:
    """ Per-worker counters. """

    def __init__(self, tier='quick'):
        self.tier = tier
        self.n = {}
        self.sets = {}
        self.soft = []     # (key, msg): failures recorded without aborting the case
        self.notes = set()

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, name, value):
        """ Record `value` (hashable) in a named set of distinct things. """
        self.sets.setdefault(name, set()).add(value)

    def fail(self, msg, key=None):
        """ Record a failure and go on with the case. """
        self.soft.append((key, msg))

    def note(self, s):
        self.notes.add(s)


def require(cond, msg, *args, key=None):
    if not cond:
        raise Viol(msg % args if args else msg, key)


_scratch = None


def scratch():
    """ A scratch directory private to this process tree, removed at exit. """
    global _scratch
    if _scratch is None:
        shm = '/dev/shm'        # memory, where there is one: many checks write thousands of files
        _scratch = tempfile.mkdtemp(prefix='mcv-', dir=shm if os.access(shm, os.W_OK) else None)
    return _scratch


def _alarm(signum, frame):
    raise CaseTimeout()


def eval_case(mod, case, ctx):
    """ Evaluate one case. Returns a list of (key, msg). """
    ctx.soft = []
    out = []
    limit = getattr(mod, 'CASE_LIMIT', CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.evaluate(case, ctx)
    except Viol as e:
        out.append((e.key, str(e)))
    except CaseTimeout:
        out.append((None, 'did not terminate within %d s of CPU time' % limit))
    except HarnessError:
        raise
    except MemoryError:
        out.append((None, 'exhausted memory'))
    except (KeyboardInterrupt, SystemExit) as e:
        out.append((None, 'unexpected %r\n%s' % (e, traceback.format_exc(limit=-6))))
    except BaseException as e:
        out.append((None, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8))))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx.soft + out


def _worker(mod, shards, tier, known, outpath):
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ctx = Ctx(tier)
    viols = []
    hits = {}
    samples = []
    err = None
    try:
        for shard in shards:
            nsh = 0
            for case in mod.cases(shard, tier):
                ctx.add('cases')
                nsh += 1
                if nsh == 2 and len(samples) < 4:
                    samples.append(repr(case)[:400])
                for key, msg in eval_case(mod, case, ctx):
                    if key is not None and key in known:
                        hits[key] = msg
                    else:
                        viols.append((repr(case), key, msg, shard))
                if len(viols) >= MAX_VIOL_PER_WORKER:
                    break
            if len(viols) >= MAX_VIOL_PER_WORKER:
                break
    except BaseException:
        err = traceback.format_exc()
    with open(outpath + '.tmp', 'wb') as f:
        pickle.dump(dict(n=ctx.n, sets=ctx.sets, viols=viols, hits=hits, samples=samples,
                         notes=ctx.notes, err=err), f)
    os.rename(outpath + '.tmp', outpath)


def load_known(pid):
    """ Known findings of a property: {key: description}. """
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.rstrip('\n')
            if not line.startswith('finding: property=%s ' % pid):
                continue
            rest = line.split(' ', 2)[2]
            key, _, desc = rest.partition(' :: ')
            assert key.startswith('key='), line
            out[key[4:]] = desc
    return out


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        import ebmlite
        if not os.path.realpath(ebmlite.__file__).startswith(os.path.realpath(REPO) + '/'):
            print('ebmlite imported from %s, not %s' % (ebmlite.__file__, REPO))
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    mod = importlib.import_module('checks.' + pid.lower())
    known = load_known(pid)
    sd = scratch()
    try:
        return _run(mod, pid, tier, seed, known, sd, t0)
    finally:
        shutil.rmtree(sd, ignore_errors=True)


def _run(mod, pid, tier, seed, known, sd, t0):
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    shards = list(mod.shards(tier))
    nw = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1)), len(shards), getattr(mod, 'MAXJOBS', 64))
    nw = max(nw, 1)
    pids = []
    # Workers take the shards in turn from a pipe.
    r, queue = os.pipe()
    if len(shards) * 4 > 60000:
        raise HarnessError('too many shards')
    os.write(queue, b''.join(i.to_bytes(4, 'big') for i in range(len(shards))))
    os.close(queue)

    def taken():
        while True:
            b = os.read(r, 4)
            if not b:
                return
            yield shards[int.from_bytes(b, 'big')]

    for w in range(nw):
        out = os.path.join(sd, 'w%d' % w)
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                _worker(mod, taken(), tier, known, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        pids.append((p, out))
    os.close(r)
    n, sets, viols, hits, samples, notes, errs = {}, {}, [], {}, [], set(), []
    for p, out in pids:
        _, status = os.waitpid(p, 0)
        if not os.path.exists(out):
            viols.append(("('worker-died',)", None, 'worker process died with status %r (crash or memory exhaustion)' % status, None))
            continue
        with open(out, 'rb') as f:
            r = pickle.load(f)
        for k, v in r['n'].items():
            n[k] = n.get(k, 0) + v
        for k, v in r['sets'].items():
            sets.setdefault(k, set()).update(v)
        viols += r['viols']
        hits.update(r['hits'])
        samples += r['samples']
        notes |= r['notes']
        if r['err']:
            errs.append(r['err'])
    for k, v in sets.items():
        n['distinct_' + k] = len(v)
    # An expectation about the exploration itself (e.g. minimum number of outcomes).
    if not viols and hasattr(mod, 'conclude'):
        for case, msg in mod.conclude(n, sets, tier) or ():
            viols.append((repr(case), None, msg, None))

    cov = mod.coverage(n, sets) if hasattr(mod, 'coverage') else default_coverage(mod, n)
    cov['samples'] = samples[:6] or ['(none)']
    cov['shards'] = len(shards)
    if notes:
        cov['notes'] = sorted(notes)
    cov['bounds'] = mod.BOUNDS[tier] if isinstance(getattr(mod, 'BOUNDS', None), dict) else getattr(mod, 'BOUNDS', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) or [
                  'CPython %s; values outside the stated alphabet and bounds are not covered' % sys.version.split()[0]],
              wall_s=round(time.time() - t0, 3), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %s' % (pid, tier, ', '.join('%s=%s' % (k, v) for k, v in sorted(n.items()))))
    for key in sorted(hits):
        print('KNOWN-FINDING: property=%s key=%s %s' % (pid, key, known[key]))
    if viols:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        viols.sort(key=lambda v: (len(v[0]), v[0]))
        for i, (case, key, msg, shard) in enumerate(viols[:3]):
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i + 1))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, case=case, key=key, message=msg,
                               replay='./check replay %s' % path), f, indent=1)
            print('--- %s' % msg[:1500])
            print('    case: %s' % case[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errs:
        print(errs[0])
        print('%s: harness error' % pid)
        return 2
    print('%s: held on everything explored (%.1f s)' % (pid, time.time() - t0))
    return 0


def default_coverage(mod, n):
    if mod.LEVEL == 'model_checking':
        cov = dict(states=n.get('states', n.get('distinct_states', 0)), transitions=n.get('transitions', 0),
                   traces_validated_against_impl=n.get('traces', n.get('cases', 0)))
    else:
        cov = dict(evaluations=n.get('evaluations', n.get('cases', 0)),
                   distinct_nontrivial=n.get('distinct_nontrivial', 0), rule=mod.RULE)
    cov['rule'] = mod.RULE
    cov['exhaustive'] = True
    cov['counters'] = {k: v for k, v in sorted(n.items())}
    return cov


def replay(path):
    """ Re-evaluate one recorded case; exit 1 if it still fails. """
    rec = json.load(open(path))
    mod = importlib.import_module('checks.' + rec['property'].lower())
    signal.signal(signal.SIGVTALRM, _alarm)
    sd = scratch()
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(rec['tier'])
        ctx = Ctx(rec['tier'])
        case = ast.literal_eval(rec['case'])
        fails = eval_case(mod, case, ctx)
    finally:
        shutil.rmtree(sd, ignore_errors=True)
    for key, msg in fails:
        print('--- %s (key=%s)' % (msg, key))
    if fails:
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('%s: the recorded case passes' % rec['property'])
    return 0
