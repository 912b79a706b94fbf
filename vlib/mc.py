"""Explorer framework shared by all checks.

A check enumerates a bounded space completely.  The space is cut into *jobs* (fixed list, no randomness); every job is
explored in its own forked process against the real code (see vlib.build), and each explored case is compared with a
reference model.  Violations become replay files; crashes of the interpreter and non-terminating cases are violations.
"""
import contextlib
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
HANG = 150            # seconds without a single finished case: non-termination
MAX_FAIL_PER_JOB = 12


def jsonable(x):
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return repr(x) if x != x or x in (float('inf'), float('-inf')) else x
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=str)
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return jsonable(x.item())
    if hasattr(x, 'tolist'):
        return jsonable(x.tolist())
    return str(x)


def h64(x):
    if not isinstance(x, bytes):
        x = repr(x).encode()
    return struct.unpack('<q', hashlib.blake2b(x, digest_size=8).digest())[0]


class Stop(Exception):
    pass


class Recorder:
    def __init__(self, job, beat=None, trace=None):
        self.job = job
        self.beat = beat
        self.trace = trace
        self.n = 0
        self.transitions = 0
        self.validated = 0
        self.evals = 0
        self.states = set()
        self.nontrivial = set()
        self.outcomes = {}
        self.samples = []
        self.fails = []
        self.nfails = 0
        self.case = None

    # -- progress / bookkeeping -----------------------------------------------------------------
    def tick(self, case=None):
        self.n += 1
        self.case = case
        if self.n in (1, 40) and case is not None and len(self.samples) < 3:
            self.samples.append(jsonable(case))
        if self.beat is not None:
            self.beat(self.n)
        if self.trace is not None:
            self.trace.seek(0)
            self.trace.truncate()
            self.trace.write(json.dumps(jsonable(case)))
            self.trace.flush()

    def state(self, key):
        self.states.add(h64(key))

    def trivial_or_not(self, key, nontrivial):
        self.evals += 1
        if nontrivial:
            self.nontrivial.add(h64(key))

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    # -- verdicts --------------------------------------------------------------------------------
    def fail(self, kind, case, msg=''):
        self.nfails += 1
        if len(self.fails) < MAX_FAIL_PER_JOB:
            self.fails.append((kind, jsonable(case), str(msg)[:2000]))

    def check(self, ok, kind, case, msg=''):
        if not ok:
            self.fail(kind, case, msg() if callable(msg) else msg)
        return ok

    @contextlib.contextmanager
    def guard(self, case, kind='exception'):
        """Explore one case: any exception escaping from the code under test is a violation."""
        self.tick(case)
        try:
            yield
        except Stop:
            raise
        except Exception as e:
            self.fail('%s:%s' % (kind, type(e).__name__), case, ''.join(traceback.format_exception(e))[-1500:])

    def result(self):
        return dict(job=self.job, n=self.n, transitions=self.transitions, validated=self.validated, evals=self.evals,
                    states=self.states, nontrivial=self.nontrivial, outcomes=self.outcomes, samples=self.samples,
                    fails=self.fails, nfails=self.nfails)


def signature(kind, case):
    return kind + '#' + hashlib.sha1(json.dumps([kind, case], sort_keys=True).encode()).hexdigest()[:12]


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                sig, _, desc = rest.partition(' ')
                out[sig[4:] if sig.startswith('sig=') else sig] = desc
    return out


def _child(check, job, slot, shm, out, tracefile=None):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_DFL)

    def beat(n):
        shm[slot * 8:slot * 8 + 8] = struct.pack('<q', n)

    rec = Recorder(job, beat, open(tracefile, 'w') if tracefile else None)
    random.seed(0)
    import numpy
    numpy.random.seed(0)
    try:
        check.run(job, rec)
    except Stop:
        pass
    except Exception as e:
        rec.fail('exception:%s' % type(e).__name__, {'job': job, 'case': rec.case},
                 ''.join(traceback.format_exception(e))[-1500:])
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(rec.result(), f)
    os.rename(out + '.tmp', out)
    os._exit(0)


def explore(check, jobs, deadline, scratch, stop_on_fail=True, known=()):
    """Run all jobs, up to NPROC at once.  Returns (results, truncated)."""
    shm = mmap.mmap(-1, 8 * NPROC)
    results, running, queue = [], {}, list(enumerate(jobs))
    free = list(range(NPROC))
    t_fail = None
    truncated = False
    while queue or running:
        if queue and (time.time() > deadline):
            truncated, queue = True, []
        if queue and t_fail is not None and time.time() > t_fail + 5:
            truncated, queue = True, []          # a violation is on record: finish what runs, start nothing new
        while queue and free:
            idx, job = queue.pop(0)
            slot = free.pop()
            shm[slot * 8:slot * 8 + 8] = struct.pack('<q', 0)
            out = os.path.join(scratch, 'job%d' % idx)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _child(check, job, slot, shm, out)
                finally:
                    os._exit(77)
            running[pid] = dict(job=job, slot=slot, out=out, last=0, t=time.time(), start=time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, r in list(running.items()):
                n = struct.unpack('<q', shm[r['slot'] * 8:r['slot'] * 8 + 8])[0]
                if n != r['last']:
                    r['last'], r['t'] = n, now
                elif now - r['t'] > HANG:
                    os.kill(p, signal.SIGKILL)
                    r['hang'] = True
                elif t_fail is not None and now > t_fail + 60 or now > deadline + 60:
                    os.kill(p, signal.SIGKILL)
                    r['cut'] = True
            time.sleep(0.01)
            continue
        r = running.pop(pid, None)
        if r is None:
            continue
        free.append(r['slot'])
        if os.path.exists(r['out']):
            with open(r['out'], 'rb') as f:
                res = pickle.load(f)
            os.unlink(r['out'])
            results.append(res)
        elif r.get('cut'):
            truncated = True
            continue
        else:
            kind = 'hang' if r.get('hang') else 'crash'
            case = _locate(check, r, scratch) if kind == 'crash' else {'job': r['job'], 'case_number': r['last']}
            res = Recorder(r['job'])
            res.fail(kind, {'job': r['job'], 'case': case}, 'process ended with status %s after %d cases' % (status, r['last']))
            results.append(res.result())
        if t_fail is None and stop_on_fail and any(signature(k, c) not in known for k, c, _ in results[-1]['fails']):
            t_fail = time.time()
    return results, truncated


def _locate(check, r, scratch):
    """Re-run a crashing job with tracing on, to name the case that ends the process."""
    trace = os.path.join(scratch, 'trace')
    shm = mmap.mmap(-1, 8)
    pid = os.fork()
    if pid == 0:
        try:
            _child(check, r['job'], 0, shm, r['out'] + '.trace', trace)
        finally:
            os._exit(77)
    t = time.time()
    while time.time() - t < 120:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(.02)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    try:
        return json.load(open(trace))
    except Exception:
        return None


def main(pid, argv=()):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    collect = '--all' in argv          # development: do not stop at the first violating job
    import tempfile
    import shutil
    import logging
    from . import build
    build.install()
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')
    try:                      # imported once, inherited by the jobs; what fails here fails in the jobs
        with contextlib.redirect_stdout(sys.stderr):
            import jpt.trees
            import jpt.sequential_trees
            import jpt.learning.impurity
    except Exception:
        pass
    mod = importlib.import_module('checks.' + pid.lower())
    check = mod.CHECK
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        with contextlib.redirect_stdout(sys.stderr):
            jobs = check.jobs(tier)
        if replay:
            data = json.load(open(replay))
            jobs = [data['job']]
        order = list(jobs)
        if seed != 1:
            random.Random(seed).shuffle(order)     # the explored set is the same; only the order differs
        deadline = t0 + (780 if tier == 'quick' else 5400)
        results, truncated = explore(check, order, deadline, scratch, stop_on_fail=not collect,
                                     known=known_findings(pid))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    states, nontrivial, outcomes, fails, samples = set(), set(), {}, [], []
    tot = dict(n=0, transitions=0, validated=0, evals=0, nfails=0)
    for r in results:
        states |= r['states']
        nontrivial |= r['nontrivial']
        for k in tot:
            tot[k] += r[k]
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        if len(samples) < 5:
            samples.extend(r['samples'][:2])
        for f in r['fails']:
            fails.append((r['job'],) + tuple(f))
    known = known_findings(pid)
    new, seen_known = [], {}
    for job, kind, case, msg in fails:
        sig = signature(kind, case)
        if sig in known:
            seen_known[sig] = case
        else:
            new.append((job, kind, case, msg, sig))
    new.sort(key=lambda f: (f[1], len(json.dumps(f[2]))))
    for sig in sorted(seen_known):
        print('KNOWN-FINDING: property=%s sig=%s %s' % (pid, sig, known[sig]))
    coverage = dict(jobs=len(results), jobs_total=len(jobs), cases_explored=tot['n'], exhaustive=not truncated,
                    distinct_outcomes=len(outcomes), outcomes=dict(sorted(outcomes.items(), key=str)[:60]),
                    samples=samples or ['none'], space=getattr(check, 'space', ''))
    if check.level == 'model_checking':
        coverage.update(states=len(states), transitions=tot['transitions'],
                        traces_validated_against_impl=tot['validated'] or tot['n'])
    else:
        coverage.update(evaluations=tot['evals'], distinct_nontrivial=len(nontrivial), rule=check.rule)
    ev = dict(property=pid, tier=tier, seed=seed, level=check.level, coverage=coverage,
              assumptions=list(getattr(check, 'assumptions', [])), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        shown = 0
        kinds = {}
        for job, kind, case, msg, sig in new:
            kinds[kind] = kinds.get(kind, 0) + 1
            if kinds[kind] > 3 or shown > 12:
                continue
            shown += 1
            path = os.path.join(VERIF, 'replay', '%s-%s.json' % (pid, sig.split('#')[1]))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, job=jsonable(job), kind=kind, case=case, message=msg, signature=sig,
                               how='python -m vlib.mc %s --replay %s  (from /verif)' % (pid, path)), f, indent=1)
            print('  %s case=%s' % (sig, json.dumps(case)[:600]))
            print('    ' + msg.strip().replace('\n', '\n    ')[-900:])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        print('%s: %d violations (%s)' % (pid, tot['nfails'], kinds))
        return 1
    print('%s: held on %d cases, %d states, %d transitions, %d jobs%s in %.1fs' % (
        pid, tot['n'], len(states), tot['transitions'], len(results), ' (TRUNCATED)' if truncated else '', time.time() - t0))
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ.update(PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                          OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
        os.execv(sys.executable, [sys.executable, '-W', 'ignore', '-m', 'vlib.mc'] + sys.argv[1:])
    sys.path.insert(0, VERIF)
    sys.exit(main(sys.argv[1], sys.argv[2:]))
