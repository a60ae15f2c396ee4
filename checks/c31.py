"""C31: runs are isolated.  What a run computes depends on its own model, parameters, data, options and
random numbers only - not on other runs of the same process, not on what was computed before with the same
objects - and it leaves everything the caller handed over as it was."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
import numpy as np
from lib import seam, hmm, gauss, env
from lib.env import THOROUGH
from checks.c08 import ref_traj
from checks import c28

CONFS = ('pure', 'ext')
CONF, EXTDIR = 'pure', None

SM = {'full': ('full', None), 'rs': ('rs', {'R': 1}), 'rsas': ('rsas', None), 'mcmc': ('mcmc', {'R': 1}), 'mhips': ('mhips', {'R': 1}),
      'mhips_reduced': ('mhips_reduced', {'R': 1}), 'mhbp': ('mhbp', {'R': 1}), 'ancestor': ('ancestor', None)}


class Fixed(seam.Controller):
    """Random outcomes decided by a fixed rule (number `pol`)."""

    def __init__(self, pol, lazy):
        seam.Controller.__init__(self, seam.make_cells((), 4), 'pm1')
        self.pol, self.lazy = pol, lazy

    def choose(self, probs, kind=''):
        n = len(probs)
        k = len(self.trace)
        i = (0, n - 1, (5 * k + 2) // 3 % n, (3 * k * k + k + self.pol) % n)[self.pol % 4]
        if k >= seam.MAX_DRAWS:
            raise seam.TooManyDraws('too many random choices')
        self.trace.append((i, n))
        return i


class Proc(object):
    """One estimation run, cut into operations."""

    def __init__(self, cfg, model=None):
        self.cfg = cfg
        self.ctl = Fixed(cfg['pol'], cfg['kind'] == 'hmm')
        self.factory, self.us, self.ys = c28.make(cfg['kind'], cfg['k'], cfg['T'], cfg['mf'], tuple(cfg.get('missing', ())))
        self.model = model
        self.out = []
        ops = [self.create]
        if cfg.get('start', True) and cfg['mf']:
            ops.append(self.start)
        off = 1 if cfg['mf'] else 0
        for i in range(off, len(self.ys)):
            ops.append(lambda i=i: self.pt.forward(self.us[i - off], self.ys[i]))
        for s in cfg['sms']:
            ops.append(lambda s=s: self.smooth(s))
        ops.append(self.read)
        if cfg.get('merge'):
            # fewer, longer operations
            a, b = ops[:2], ops[2:]
            ops = [lambda: [f() for f in a]] + b
        self.ops = ops

    def create(self):
        from pyparticleest.filter import ParticleTrajectory
        c = self.cfg
        if self.model is None:
            self.model = self.factory()
        fo = {'cond_traj': ref_traj([t % 2 for t in range(c['T'])])} if c['filt'].startswith('c') else None
        self.pt = ParticleTrajectory(self.model, c['N'], 0.67, filter=c['filt'], filter_options=fo, T=c.get('alloc'))
        self.st = None

    def start(self):
        self.pt.measure(self.ys[0])

    def smooth(self, s):
        m, o = SM[s]
        self.st = self.pt.perform_smoothing(self.cfg['M'], m, dict(o) if o else None)
        self.out += [np.array(x.pa.part, dtype=float) for x in self.st.traj]

    def read(self):
        for s in self.pt.traj:
            self.out += [np.array(s.pa.part, dtype=float), np.array(s.pa.w, dtype=float), np.array(s.ancestors)]
        if self.st is not None:
            self.out.append(np.array(self.st.get_smoothed_estimates(), dtype=float))

    def do(self, k):
        with seam.active(self.ctl):
            self.ops[k]()


def alone(cfg):
    """The run by itself in a fresh interpreter."""
    code = ('import sys, json, pickle\n'
            'sys.path.insert(0, %r)\n'
            'from lib import env\n'
            'env.use_config(%r)\n'
            'from checks import c31\n'
            'cfg = json.loads(sys.argv[1])\n'
            'try:\n'
            '    p = c31.Proc(cfg)\n'
            '    for k in range(len(p.ops)):\n'
            '        p.do(k)\n'
            '    r = (p.out, p.ctl.trace)\n'
            'except Exception as e:\n'
            '    r = repr(e)\n'
            'sys.stdout.buffer.write(b"RESULT" + pickle.dumps(r))\n') % (env.VERIF, EXTDIR or 'pure')
    o = subprocess.run([sys.executable, '-c', code, json.dumps(cfg)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=env.VERIF)
    i = o.stdout.find(b'RESULT')
    if o.returncode or i < 0:
        raise RuntimeError('isolated run failed: %s' % o.stderr.decode('utf-8', 'replace')[-500:])
    r = pickle.loads(o.stdout[i + 6:])
    if isinstance(r, str):
        raise RuntimeError('isolated run failed: ' + r)
    return r


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        s = set(pos)
        yield [0 if i in s else 1 for i in range(n + m)]


def f_pair(r, a, b, shared=False):
    """Every interleaving of the operations of two runs."""
    if shared:
        m = c28.make(a['kind'], a['k'], a['T'], a['mf'], tuple(a.get('missing', ())))[0]
    want = [alone(a), alone(b)]
    na, nb = len(Proc(a).ops), len(Proc(b).ops)
    for order in interleavings(na, nb):
        one = m() if shared else None
        P = [Proc(a, one), Proc(b, one)]
        at = [0, 0]
        for w in order:
            P[w].do(at[w])
            at[w] += 1
        r.states += 1
        r.transitions += na + nb
        r.executions += 1
        for w in (0, 1):
            if P[w].ctl.trace != want[w][1]:
                return r.fail('choices', 'interleaved with another run, the %s run makes other random choices' % ('first', 'second')[w], order=order)
            if not c28.equal(P[w].out, want[w][0]):
                return r.fail('interleaved', 'interleaved with another run, the %s run gives another result' % ('first', 'second')[w], order=order)
    r.outcome(repr([round(float(np.nansum(np.where(np.isfinite(x), x, 0))), 6) for x in want[0][0][:6]]))
    r.sample(a=a, b=b, shared=shared, interleavings=r.executions)


def f_reuse(r, kind, k, filt, N, M, T, mf, sms, missing=()):
    """Every order of the forward steps and smoothing runs of one trajectory: each smoothing sees what it would
    see if nothing else had been smoothed before, and the steps do not notice the smoothing."""
    base = dict(kind=kind, k=k, filt=filt, N=N, M=M, T=T, mf=mf, missing=list(missing), pol=2, sms=[])
    lazy = kind == 'hmm'
    options = dict((s, dict(SM[s][1]) if SM[s][1] else None) for s in sms)    # the caller's, used for every run
    wrong = []

    def prefix(n):
        """A fresh trajectory after n forward steps."""
        p = Proc(base)
        p.do(0)
        first = 1
        if mf:
            p.do(1)
            first = 2
        for i in range(n):
            p.do(first + i)
        return p, first

    def smoothed(p, s, pol):
        with seam.active(Fixed(pol, lazy)):
            m, o = SM[s]
            st = p.pt.perform_smoothing(M, m, options[s])
        if options[s] != o and not wrong:
            wrong.append('smoothing with %s changed the options it was given' % s)
        return [np.array(x.pa.part, dtype=float) for x in st.traj], st

    def state(p):
        out = []
        for s in p.pt.traj:
            out += [np.array(s.pa.part, dtype=float), np.array(s.pa.w, dtype=float), np.array(s.ancestors)]
        return out
    steps = len(Proc(base).ops) - (3 if mf else 2)
    ref = {}
    for n in range(steps + 1):
        p, _ = prefix(n)
        ref[n] = state(p)
        for j, s in enumerate(sms):
            if T0(n, mf) < 2:
                continue
            q, _ = prefix(n)
            ref[n, j] = smoothed(q, s, j)[0]
    for where in itertools.product(range(steps + 1), repeat=len(sms)):
        for perm in itertools.permutations(range(len(sms))):
            p, first = prefix(0)
            kept = []
            n = 0
            done = []
            for n in range(steps + 1):
                if n:
                    p.do(first + n - 1)
                for j in perm:
                    if where[j] != n or (n, j) not in ref:
                        continue
                    got, st = smoothed(p, sms[j], j)
                    kept.append((st, ref[n, j], done + [sms[j]]))
                    r.transitions += 1
                    done.append((n, sms[j]))
                    if not c28.equal(got, ref[n, j]):
                        return r.fail('reuse', 'smoothing with %s after %r gives another result than on a fresh trajectory' % (sms[j], done[:-1]), where=where)
                r.transitions += 1
                if not c28.equal(state(p), ref[n]):
                    return r.fail('reuse', 'after %r the filter gives another result' % (done,), where=where)
            r.states += 1
            r.executions += 1
            if wrong:
                return r.fail('inputs', wrong[0], where=where)
            for st, w, d in kept:
                if not c28.equal([np.array(x.pa.part, dtype=float) for x in st.traj], w):
                    return r.fail('reuse', 'a smoothed trajectory (%r) was changed by what was computed later' % (d,), where=where)
    r.outcome(str(len(ref)))
    r.sample(kind=kind, filter=filt, smoothers=sms, histories=r.executions)


def T0(n, mf):
    """Steps of a trajectory after n forward calls."""
    return n + 1


# ---- one simulator, many runs ------------------------------------------------------------------

RUNS = [dict(filter='pf', smoother='full', num=2, nums=2), dict(filter='apf', smoother='mcmc', smoother_options={'R': 1}, num=2, nums=1),
        dict(filter='pf', smoother=None, num=3, nums=2), dict(filter='cpfas', smoother='ancestor', num=2, nums=1, cond=True),
        dict(filter='PF', smoother='mhips', smoother_options={'R': 1}, num=1, nums=2), dict(filter='pf', smoother='rsas', smoother_options={'ratio': 2.0}, num=2, nums=2, res=0.0),
        dict(filter='pf', smoother='rs', smoother_options={'R': 1}, num=2, nums=1), dict(filter='pf', smoother='mcmc', smoother_options={}, num=2, nums=1)]


class Par(object):
    """Finite-state models chosen by the parameter; keeps the array it is given."""

    def __init__(self, T, mf):
        self.par = None
        self.models = [hmm.make_model(hmm.Spec(S=2, T=T, variant=v, y0=mf, u=[10.0, 0.0, 11.0, 14.0][:T], y=[20.0, 0.0, 25.0, 21.0][:T])) for v in range(3)]

    def set_params(self, params):
        self.par = params

    def __getattr__(self, name):
        if name.startswith('__') or name in ('par', 'models'):
            raise AttributeError(name)
        v = 0 if self.par is None else int(round(float(np.asarray(self.par).ravel()[0])))
        return getattr(self.models[v], name)


def snap(o):
    return copy.deepcopy(o)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.shape == b.shape and b.dtype == object and all(same(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, dict):
        return sorted(map(str, a)) == sorted(map(str, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, '__dict__'):
        return same(a.__dict__, b.__dict__)
    return a == b


def run(sim, cfg, pol, mf, T, so=None):
    """(result, complaint)"""
    fo = {'cond_traj': ref_traj([t % 2 for t in range(T)])} if cfg.get('cond') else None
    before = snap((fo, so, sim.u, sim.y))
    with seam.active(Fixed(pol, True)):
        n = sim.simulate(cfg['num'], cfg['nums'], filter=cfg['filter'], filter_options=fo, smoother=cfg['smoother'],
                         smoother_options=so, res=cfg.get('res', 0.67), meas_first=mf)
    bad = None
    for what, a, b in zip(('filter options', 'smoother options', 'inputs', 'measurements'), before, (fo, so, sim.u, sim.y)):
        if not same(a, b):
            bad = 'the run changed the %s' % what
    return [np.array([n])] + estimates(sim, cfg), bad


def estimates(sim, cfg):
    out = list(sim.get_filtered_estimates()) + [sim.get_filtered_mean()]
    if cfg['smoother'] is not None:
        out += [sim.get_smoothed_estimates(), sim.get_smoothed_mean()]
    return [np.array(x, dtype=float) for x in out]


def f_sim(r, T, mf, depth, first, container):
    from pyparticleest.simulator import Simulator

    def data():
        u = [np.asarray([x]) for x in [10.0, 0.0, 11.0, 14.0][:T - 1]]
        y = [np.asarray([x]) for x in [20.0, 0.0, 25.0, 21.0][:T]]
        y = y if mf else y[1:]
        if container == 'array':
            return np.array(u), np.array(y)
        if container == 'tuple':
            return tuple(u), tuple(y)
        return u, y
    ref = {}

    def fresh(par, k, pol):
        if (par, k, pol) not in ref:
            u, y = data()
            sim = Simulator(Par(T, mf), u, y)
            if par is not None:
                sim.set_params(np.array([float(par), 0.5]))
            ref[par, k, pol] = run(sim, RUNS[k], pol, mf, T, snap(RUNS[k].get('smoother_options')))[0]
        return ref[par, k, pol]
    ops = [('set', 1), ('set', 2), ('set', 1.0 + 1e-9)] + [('run', k) for k in range(len(RUNS))]
    for seq in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first,) + seq
        if ops[seq[-1]][0] != 'run':
            continue
        u, y = data()
        u0, y0 = snap(u), snap(y)
        sim = Simulator(Par(T, mf), u, y)
        par, last, p, p0 = None, None, None, None
        given = [snap(c.get('smoother_options')) for c in RUNS]
        r.states += 1
        for pos, o in enumerate(seq):
            kind, k = ops[o]
            r.transitions += 1
            if kind == 'set':
                p = np.array([float(k), 0.5])
                sim.set_params(p)
                if not np.array_equal(p, [float(k), 0.5]):
                    return r.fail('params', 'set_params changed the array it was given')
                p[:] = 0.0            # the caller's array is the caller's
                par = k
                if not np.array_equal(np.ravel(sim.model.par), [float(k), 0.5]):
                    return r.fail('params', 'after set_params(%r) the model has %r' % ([float(k), 0.5], sim.model.par), seq=[ops[x] for x in seq[:pos + 1]])
            else:
                want = fresh(par, k, pos + 3)
                got, bad = run(sim, RUNS[k], pos + 3, mf, T, given[k])
                r.executions += 1
                if bad:
                    return r.fail('inputs', bad, seq=[ops[x] for x in seq])
                if not c28.equal(got, want):
                    return r.fail('history', 'simulate gives another result than in a fresh simulator', seq=[ops[x] for x in seq[:pos + 1]])
                last = (RUNS[k], want[1:])
            if last is not None and not c28.equal(estimates(sim, last[0]), last[1]):
                return r.fail('estimates', 'the estimates of a run changed without another run', seq=[ops[x] for x in seq[:pos + 1]])
            if not same(u, u0) or not same(y, y0):
                return r.fail('inputs', 'the data were changed', seq=[ops[x] for x in seq[:pos + 1]])
    r.outcome(repr(len(ref)))
    r.sample(sequences=r.states, first=ops[first], container=container)


# ---- scenarios -----------------------------------------------------------------------------------

def cfg(kind, k, filt, sms, N=2, M=2, T=3, mf=True, missing=(), pol=2, **kw):
    return dict(kind=kind, k=k, filt=filt, sms=list(sms), N=N, M=M, T=T, mf=mf, missing=list(missing), pol=pol, **kw)


def tasks():
    out = []
    ext = CONF == 'ext'
    H = []
    for k, s in enumerate(sorted(SM)):
        H.append(cfg('hmm', k % 3, ('pf', 'apf', 'cpf', 'cpfas')[k % 4], [s], mf=k % 3 != 2, pol=k, N=2 + k % 2, merge=True))
    if not ext:
        for i, a in enumerate(H):
            for j in sorted(set([i, (i + 1) % len(H), (i + 3) % len(H), (i + 4) % len(H)])):
                b = dict(H[j], pol=H[j]['pol'] + 1, k=(H[j]['k'] + (j == i)) % 3)
                out.append(('f_pair', dict(a=a, b=b)))
            # one stateless model used by both
            out.append(('f_pair', dict(a=a, b=dict(a, pol=a['pol'] + 1, N=3, filt='pf', sms=['full'] if i % 2 else ['mhips']), shared=True)))
    rb = []
    for kind, sms in (('mix', ('full', 'mhips')), ('marg', ('mcmc', 'ancestor')), ('hier', ('full', 'mcmc')), ('nlg', ('rsas', 'full')), ('ltv', ('full', 'ancestor'))):
        if ext and kind == 'nlg':
            continue
        a = cfg(kind, 1, 'pf', [sms[0]], T=3, merge=True)
        b = cfg(kind, 3, 'pf', [sms[0]], T=3, missing=(1,), pol=3, merge=True)
        c = cfg(kind, 3, 'pf', [sms[1]], T=3, mf=False, pol=1, merge=True)
        out += [('f_pair', dict(a=a, b=b)), ('f_pair', dict(a=b, b=c)), ('f_pair', dict(a=a, b=dict(a, pol=3))),
                ('f_pair', dict(a=b, b=dict(b, pol=0, N=3, sms=[sms[1]]), shared=True)), ('f_pair', dict(a=a, b=dict(a, pol=3, M=1), shared=True))]
        rb.append(a)
    for i, a in enumerate(rb):
        for b in rb[i + 1:]:
            out.append(('f_pair', dict(a=a, b=dict(b, pol=3))))
    if not ext:
        for i, a in enumerate(rb):
            out.append(('f_pair', dict(a=a, b=H[i])))
        names = sorted(SM)
        for i, (x, y) in enumerate(itertools.combinations(names, 2)):
            out.append(('f_reuse', dict(kind='hmm', k=i % 3, filt=('pf', 'apf')[i % 2], N=2, M=2, T=4, mf=i % 3 != 0, sms=[x, y])))
        for i, x in enumerate(names):
            out.append(('f_reuse', dict(kind='hmm', k=i % 3, filt=('cpf', 'cpfas')[i % 2], N=3, M=2, T=3, mf=True, sms=[x, x])))
    for kind, sms in (('mix', ['full', 'mhips', 'ancestor']), ('marg', ['full', 'mcmc', 'ancestor']), ('hier', ['full', 'mcmc', 'rsas']),
                      ('nlg', ['full', 'mcmc', 'rsas']), ('ltv', ['full', 'ancestor'])):
        for k, missing in ((1, ()), (3, (2,))):
            for mf in (True, False):
                out.append(('f_reuse', dict(kind=kind, k=k, filt='pf', N=2, M=2, T=3, mf=mf, sms=sms, missing=missing)))
    if not ext:
        for f in range(3 + len(RUNS)):
            for c, mf in (('list', True), ('array', True), ('tuple', False), ('array', False)):
                out.append(('f_sim', dict(T=3, mf=mf, depth=4 if THOROUGH else 3, first=f, container=c)))
    return out
