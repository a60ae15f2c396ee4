#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] : run one check (see DESIGN.md).

A check module checks/<id>.py defines tasks() -> [(function name, kwargs)], the functions
f(result, **kwargs), and optionally CONFS (('pure',) by default; 'ext' = compiled extensions,
which are rebuilt from /repo's .pyx files in a scratch directory on every run).
"""
import os
import sys
import time
import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


def main():
    pid = sys.argv[1]
    import importlib
    import shutil
    import subprocess
    import tempfile
    if '--conf' in sys.argv:
        # worker for one configuration: run the tasks, dump the results
        conf = sys.argv[sys.argv.index('--conf') + 1]
        out = sys.argv[sys.argv.index('--out') + 1]
        only = None
        if '--only' in sys.argv:
            only = json.load(open(sys.argv[sys.argv.index('--only') + 1]))
        from lib import env, large, runner
        env.use_config(conf)
        modname = 'checks.' + pid.lower()
        m = importlib.import_module(modname)
        m.CONF = 'pure' if conf == 'pure' else 'ext'
        m.EXTDIR = None if conf == 'pure' else conf
        try:
            tasks = large.add(pid.upper(), m.tasks())
        except Exception:
            # building the scenarios executes the code under test as well
            import traceback
            tb = traceback.format_exc()
            if env.REPO + '/' not in tb:
                raise
            r = runner.Result()
            r.fail('exception-in-tasks', tb.strip().splitlines()[-1], traceback=tb[-3000:])
            d = runner._skipped((0, modname, 'tasks', {}), 'scenario construction failed')
            d['violations'] = r.violations
            d['kwargs'] = {'_conf': m.CONF}
            json.dump(runner._clean([d]), open(out, 'w'))
            return 0
        if only is not None:
            tasks = [t for t in tasks if t[0] == only['task'] and
                     runner._clean(t[1]) == only['kwargs']]
        jobs = None
        if '--jobs' in sys.argv:
            jobs = int(sys.argv[sys.argv.index('--jobs') + 1])
        res = runner.run_tasks(modname, tasks, jobs)
        for d in res:
            d['kwargs'] = dict(d['kwargs'], _conf=m.CONF)
        json.dump(runner._clean(res), open(out, 'w'))
        return 0

    here = os.path.dirname(os.path.abspath(__file__))
    src = open(os.path.join(here, 'checks', pid.lower() + '.py')).read()
    confs = ['pure']
    for line in src.splitlines():
        if line.startswith('CONFS'):
            confs = list(eval(line.split('=', 1)[1]))
    only = None
    if '--replay' in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.chmod(scratch, 0o755)
    try:
        from lib import env, runner
        import threading
        results = []
        errors = []

        def worker(conf):
            try:
                target = 'pure'
                if conf == 'ext':
                    target = os.path.join(scratch, 'ext')
                    os.makedirs(target)
                    env.build_ext(target)
                out = os.path.join(scratch, 'out-%s.json' % conf)
                cmd = [sys.executable, os.path.abspath(__file__), pid, '--conf', target, '--out', out]
                if only is not None:
                    k = dict(only['kwargs'])
                    if k.pop('_conf', 'pure') != conf:
                        return
                    fn = os.path.join(scratch, 'only-%s.json' % conf)
                    json.dump({'task': only['task'], 'kwargs': k}, open(fn, 'w'))
                    cmd += ['--only', fn]
                if '--jobs' in sys.argv:
                    cmd += ['--jobs', sys.argv[sys.argv.index('--jobs') + 1]]
                rc = subprocess.call(cmd, cwd=here, stdout=subprocess.DEVNULL)
                if rc != 0:
                    errors.append('%s worker ended with %d' % (conf, rc))
                    return
                results.append((confs.index(conf), json.load(open(out))))
            except Exception as e:
                errors.append('%s: %r' % (conf, e))
        ths = [threading.Thread(target=worker, args=(c,)) for c in confs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errors:
            print('ERROR %s: %s' % (pid, '; '.join(errors)))
            if not any(d['violations'] for _, r in results for d in r):
                return 2
        allres = []
        for _, r in sorted(results, key=lambda x: x[0]):
            allres.extend(r)
        meta = {}
        for line in src.splitlines():
            if line.startswith('ASSUMPTIONS'):
                break
        ns = {}
        if only is not None:
            # a replay does not rewrite the evidence
            bad = [(d, v) for d in allres for v in d['violations']]
            for d, v in bad:
                print(d['task'], json.dumps(d['kwargs']), '\n  ', v['msg'], '\n', json.dumps(v['data'], indent=1)[:6000])
            print('replay: %s' % ('violation reproduced' if bad else 'no violation'))
            return 1 if bad else 0
        try:
            man = json.load(open(os.path.join(here, 'ASSUMPTIONS.json')))
            assumptions = man.get('all', []) + man.get(pid, [])
        except OSError:
            assumptions = []
        return runner.finish(pid, allres, T0, {'configurations': confs}, assumptions)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
