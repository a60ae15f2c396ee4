"""Runs the tasks of a check in parallel, writes the evidence, prints violations."""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from lib import env, pieces

TASK_TIMEOUT = 300 if not env.THOROUGH else 7200

MAX_BAD = int(os.environ.get('VERIF_MAX_BAD', '12'))   # scenarios with violations after which the run stops


class Result(object):
    """What one task covered and found."""

    def __init__(self):
        self.states = 0          # distinct states / configurations judged
        self.transitions = 0     # transitions of the real code executed between them
        self.executions = 0      # executions of the real code compared with the reference
        self.violations = []     # dicts: key, msg, data
        self.samples = []
        self.outcomes = set()    # distinct observed outcomes (short strings)
        self.notes = {}

    def fail(self, key, msg, **data):
        if len(self.violations) < 5:
            self.violations.append({'key': key, 'msg': msg, 'data': data})
        return False

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes.add(o if isinstance(o, str) else repr(o))

    def add(self, stats):
        """Add the counters of a seam.Stats."""
        self.executions += stats.executions
        self.transitions += stats.transitions


def _alarm(sig, frm):
    raise TimeoutError('task did not finish within %d s' % TASK_TIMEOUT)


def _run(arg):
    idx, mod, name, kwargs = arg
    import importlib
    m = importlib.import_module(mod)
    r = Result()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_TIMEOUT)
    try:
        import numpy
        numpy.random.seed(12345)
        pieces.USED = 0
        getattr(m, name)(r, **kwargs)
    except TimeoutError as e:
        if pieces.USED:
            # random numbers used in a way that makes enumeration expensive: what was done so far counts
            r.notes['unfinished'] = 'time was used up finding the pieces of random numbers'
        else:
            r.fail('exception:TimeoutError', 'TimeoutError: %s' % e, traceback=traceback.format_exc()[-3000:])
    except Exception as e:
        tb = traceback.format_exc()
        where = ''
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(env.REPO + '/'):
                where = '%s:%s' % (os.path.relpath(fr.filename, env.REPO), fr.name)
        r.fail('exception:%s:%s' % (type(e).__name__, where), '%s: %s' % (type(e).__name__, e),
               traceback=tb[-3000:], choices=getattr(e, 'choices', None))
    finally:
        signal.alarm(0)
    return idx, {'task': name, 'kwargs': kwargs, 'states': r.states, 'transitions': r.transitions,
                 'executions': r.executions, 'violations': r.violations, 'samples': r.samples,
                 'outcomes': sorted(r.outcomes), 'notes': r.notes, 'wall': time.time() - t0}


def _skipped(a, why):
    return {'task': a[2], 'kwargs': a[3], 'states': 0, 'transitions': 0, 'executions': 0, 'violations': [],
            'samples': [], 'outcomes': [], 'notes': {'skipped': why}, 'wall': 0.0}


def run_tasks(mod, tasks, jobs=None):
    """tasks: list of (name, kwargs).  Returns the list of result dicts in order."""
    args = [(i, mod, n, k) for i, (n, k) in enumerate(tasks)]
    jobs = jobs or min(8, os.cpu_count() or 1)
    out = [None] * len(args)
    if jobs <= 1 or len(args) <= 1:
        for a in args:
            i, d = _run(a)
            out[i] = d
        return out
    ctx = multiprocessing.get_context('fork')
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    ex = ProcessPoolExecutor(jobs, mp_context=ctx)
    futs = [ex.submit(_run, a) for a in args]
    stopped, bad, known = False, 0, load_known()
    try:
        for f in as_completed(futs):
            i, d = f.result()
            out[i] = d
            if any(v['key'].startswith('exception:TimeoutError') for v in d['violations']):
                # the code under test does not terminate: no need to wait for the same elsewhere
                stopped = True
                break
            bad += any((mod.split('.')[-1].upper(), v['key']) not in known for v in d['violations'])
            if bad >= MAX_BAD:
                stopped = True
                break
    except BrokenProcessPool:
        pass
    if stopped:
        for pr in list(ex._processes.values()):
            pr.kill()
        ex.shutdown(wait=False, cancel_futures=True)
        for a in args:
            if out[a[0]] is None:
                out[a[0]] = _skipped(a, 'after a time-out or many violations')
        return out
    ex.shutdown(wait=True, cancel_futures=True)
    # a worker died (crash of compiled code): the remaining tasks one process each
    rest = [a for a in args if out[a[0]] is None]
    crashes = 0
    for a in rest:
        if crashes >= 3:
            out[a[0]] = _skipped(a, 'after crashes')
            continue
        with ProcessPoolExecutor(1, mp_context=ctx) as one:
            try:
                i, d = one.submit(_run, a).result()
                out[i] = d
            except BrokenProcessPool:
                crashes += 1
                r = Result()
                r.fail('crash', 'the interpreter crashed while executing this scenario')
                out[a[0]] = {'task': a[2], 'kwargs': a[3], 'states': 0, 'transitions': 0, 'executions': 0,
                             'violations': r.violations, 'samples': [], 'outcomes': [], 'notes': {}, 'wall': 0.0}
    return out


def _clean(o):
    import numpy
    if isinstance(o, dict):
        return {str(k): _clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_clean(v) for v in o]
    if isinstance(o, numpy.ndarray):
        return _clean(o.tolist())
    if isinstance(o, (numpy.integer,)):
        return int(o)
    if isinstance(o, (float, numpy.floating)):
        o = float(o)
        return o if o == o and abs(o) != float('inf') else repr(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<key> <text>' and 'fixed: ...'."""
    res = {}
    p = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                parts = line[len('known:'):].split(None, 2)
                pid = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                res[(pid, key)] = parts[2] if len(parts) > 2 else ''
    return res


def finish(pid, results, t0, coverage_extra=None, assumptions=None):
    """Write evidence, print the verdict, return the exit code."""
    evd = os.path.join(env.VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(pid + '.violation'):
            os.unlink(os.path.join(evd, f))
    known = load_known()
    viol, seen_known = [], {}
    for d in results:
        for v in d['violations']:
            if (pid, v['key']) in known:
                seen_known[(pid, v['key'])] = known[(pid, v['key'])]
            else:
                viol.append((d, v))
    outcomes = set()
    samples = []
    for d in results:
        outcomes.update(d['outcomes'])
        for s in d['samples']:
            if len(samples) < 6:
                samples.append(dict(s, task=d['task']))
    cov = {
        'states': sum(d['states'] for d in results),
        'transitions': sum(d['transitions'] for d in results),
        'traces_validated_against_impl': sum(d['executions'] for d in results),
        'samples': _clean(samples) or [{'tasks': len(results)}],
        'scenarios': len(results),
        'distinct_outcomes': len(outcomes),
        'exhaustive': True,
    }
    if coverage_extra:
        cov.update(coverage_extra)
    ev = {'property': pid, 'tier': env.TIER, 'seed': env.SEED, 'level': 'model_checking',
          'coverage': cov, 'assumptions': assumptions or [], 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(_clean(ev), f, indent=1)
    for (p, k), text in seen_known.items():
        print('KNOWN-FINDING: property=%s %s %s' % (p, k, text))
    print('%s: scenarios=%d states=%d transitions=%d executions=%d outcomes=%d violations=%d wall=%.1fs'
          % (pid, len(results), cov['states'], cov['transitions'], cov['traces_validated_against_impl'],
             len(outcomes), len(viol), time.time() - t0))
    if os.environ.get('VERIF_TIMES'):
        for d in sorted(results, key=lambda d: -d['wall'])[:8]:
            print('   %6.1fs %s %s exec=%d' % (d['wall'], d['task'], json.dumps(_clean(d['kwargs']))[:150], d['executions']))
    if not viol:
        return 0
    for n, (d, v) in enumerate(viol[:5]):
        path = os.path.join(evd, '%s.violation%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(_clean({'property': pid, 'task': d['task'], 'kwargs': d['kwargs'], 'violation': v,
                              'replay': 'VERIF_TIER=%s /opt/venv/bin/python /verif/check.py %s --replay %s' % (env.TIER, pid, path)}), f, indent=1)
        print('  %s %s: %s' % (d['task'], json.dumps(_clean(d['kwargs']))[:200], v['msg'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()
    return 1
