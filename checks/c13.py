"""C13: the simulator's estimates equal the stored filter and smoother, data pairing, shapes."""
import itertools
import numpy as np
from lib import seam, hmm, steps, smooth
from lib.env import THOROUGH
from checks.c08 import ref_traj

CONFS = ('pure',)

FILTERS = ('pf', 'apf', 'sir', 'pfy', 'cpf', 'cpfas', 'csiras', 'cpfyas', 'PF', 'APF')
SM = [('full', None), ('rs', {'R': 1}), ('rsas', None), ('mcmc', {'R': 1}), ('mhips', {'R': 1}), ('mhips_reduced', {'R': 1}), ('mhbp', {'R': 1}), ('ancestor', None), (None, None),
      # without options: the library's own numbers of iterations (fixed schedules)
      ('rs', None), ('mcmc', None), ('mhips', None), ('mhips_reduced', None), ('mhbp', None)]
NSM = 9


class Capped(Exception):
    pass


def fval(v):
    return None if v is None else float(np.asarray(v, dtype=float).reshape(-1)[0])


def f_sim(r, filt, sm, N, M, T, mf, vec=False, nou=False, missing=(), loglike=0.0, dev=3):
    from pyparticleest.simulator import Simulator
    name, opts = SM[sm]
    spec = hmm.Spec(S=2, T=T, variant=1, y0=mf, missing=missing, logscale=lambda t: loglike)
    if nou:
        spec.u = [0.0] * T
    rec = []
    model = hmm.make_model(spec, rec)
    if nou:
        # without inputs the model receives None
        for fn in ('sample_process_noise', 'update', 'logp_xnext', 'eval_1st_stage_weights'):
            wrap_none(model, fn)
    pack = (lambda v: None if v is None else np.asarray([v, 9.0])) if vec else (lambda v: v)
    U = [pack(v) for v in spec.u[:T - 1]]
    Yin = [pack(v) for v in (spec.y if mf else spec.y[1:])]
    fo = {'cond_traj': ref_traj([t % 2 for t in range(T)])} if filt.lower() in ('cpf', 'cpfas', 'csiras', 'cpfyas') else None
    st = seam.Stats()
    cells = seam.make_cells((), 3)

    def body(c):
        del rec[:]
        kw = {}
        if fo is not None:
            kw['filter_options'] = fo
        sim = Simulator(model, None if nou else U, Yin)
        n = sim.simulate(N, M, filter=filt, smoother=name, smoother_options=opts, res=0.67, meas_first=mf, **kw)
        return sim, n
    cnt = 0
    for p, ch, (sim, n) in seam.explore(body, cells=cells, stats=st, lazy=True, dev=dev):
        cnt += 1
        ctx = dict(filter=filt, smoother=name, choices=ch)
        traj = sim.pt.traj
        if len(traj) != T:
            return r.fail('length', '%d filter steps for %d time points' % (len(traj), T), **ctx)
        est, w = sim.get_filtered_estimates()
        mean = sim.get_filtered_mean()
        if est.shape != (T, N, 2) or w.shape != (T, N) or mean.shape != (T, 2):
            return r.fail('shape:filter', 'shapes %r %r %r' % (est.shape, w.shape, mean.shape), **ctx)
        for t in range(T):
            W = hmm.nw(traj[t].pa.w)
            part = np.asarray(traj[t].pa.part)
            if not np.array_equal(est[t], part):
                return r.fail('filtered', 'filtered estimates of t=%d are not the particles' % t, **ctx)
            if not np.max(np.abs(w[t] - W)) < 1e-12:
                return r.fail('weights', 'weights of t=%d: %r, normalised filter weights %r' % (t, w[t], W), **ctx)
            m = np.zeros(2)
            for i in range(N):
                m += W[i] * part[i]
            if not np.max(np.abs(m - mean[t])) <= 1e-9 * max(1.0, np.max(np.abs(m))):
                return r.fail('mean', 'filtered mean of t=%d %r, weighted mean %r' % (t, mean[t], m), **ctx)
        if name is not None:
            se = sim.get_smoothed_estimates()
            sm_ = sim.get_smoothed_mean()
            if se.shape != (T, M, 2) or sm_.shape != (T, 2):
                return r.fail('shape:smoother', 'shapes %r %r' % (se.shape, sm_.shape), **ctx)
            for t in range(T):
                q = np.asarray(sim.straj.traj[t].pa.part)
                if not np.array_equal(se[t], q):
                    return r.fail('smoothed', 'smoothed estimates of t=%d are not the trajectories' % t, **ctx)
                a = sum(q[m] for m in range(M)) / M
                if not np.max(np.abs(a - sm_[t])) <= 1e-9 * max(1.0, np.max(np.abs(a))):
                    return r.fail('smean', 'smoothed mean of t=%d %r, average %r' % (t, sm_[t], a), **ctx)
        elif sim.straj is not None:
            return r.fail('nosmoother', 'trajectories without a smoother', **ctx)
        # pairing of inputs and measurements with time
        for c in rec:
            t = int(c[-1])
            if c[0] in ('noise', 'update', 'first', 'xnext'):
                u = c[3] if c[0] == 'xnext' else c[2]
                if not nou and u != spec.u[t]:
                    return r.fail('pair:u', '%s at t=%d with u=%r instead of %r' % (c[0], t, u, spec.u[t]), call=c, **ctx)
                if c[0] == 'first' and c[3] != spec.y[t + 1]:
                    return r.fail('pair:y', 'first stage at t=%d with y=%r instead of %r' % (t, c[3], spec.y[t + 1]), call=c, **ctx)
            elif c[0] == 'measure' and c[2] != spec.y[t]:
                return r.fail('pair:y', 'likelihood at t=%d with y=%r instead of %r' % (t, c[2], spec.y[t]), call=c, **ctx)
        mt = set(int(c[-1]) for c in rec if c[0] == 'measure')
        if filt.lower() in ('pf', 'apf', 'cpf', 'cpfas'):
            want = set(t for t in range(T) if spec.y[t] is not None)
            if not want <= mt:
                return r.fail('pair:y', 'no likelihood evaluated at times %r' % sorted(want - mt), **ctx)
        if not isinstance(n, (int, np.integer)) or isinstance(n, bool) or not 0 <= n <= T - 1:
            return r.fail('count', 'simulate returned %r' % (n,), **ctx)
        r.outcome(repr(est[:, :, 0].tolist()))
    r.states += cnt
    r.add(st)
    r.sample(filter=filt, smoother=name, N=N, M=M, T=T, meas_first=mf, executions=cnt)


def wrap_none(model, fn):
    """Models of a system without input: the library passes None for u."""
    orig = getattr(model, fn)

    def f(*a, **k):
        import inspect
        ba = inspect.signature(orig).bind(*a, **k)
        if ba.arguments.get('u', 1) is not None:
            raise AssertionError('%s called with u=%r without inputs' % (fn, ba.arguments.get('u')))
        ba.arguments['u'] = 0.0
        return orig(*ba.args, **ba.kwargs)
    setattr(model, fn, f)


def f_weights(r, N, T):
    """Filtered estimates and mean for every pattern of stored log weights, close and far apart."""
    from pyparticleest.simulator import Simulator
    spec = hmm.Spec(S=2, T=T, variant=1)
    model = hmm.make_model(spec)
    sim = Simulator(model, spec.u[:T - 1], spec.y)
    with seam.active(seam.Controller(cells=seam.make_cells((), 3))):
        sim.simulate(N, 1, filter='PF', smoother=None, res=0.0, meas_first=True)
    for s, t in zip(sim.pt.traj, range(T)):
        s.pa.part = np.asarray([[(i + t) % 2, 100.0 * i - 30.0 * t] for i in range(N)])
    pats = [p for p in itertools.product((0.0, -0.4, -8.0, -25.0, -700.0, -np.inf), repeat=N) if max(p) > -700.0]
    for lw in itertools.product(pats, repeat=T):
        for off in (0.0, -300.0):
            for s, l in zip(sim.pt.traj, lw):
                s.pa.w = np.asarray(l) + off
            est, w = sim.get_filtered_estimates()
            mean = sim.get_filtered_mean()
            r.states += 1
            r.executions += 1
            r.transitions += T
            for t in range(T):
                W = hmm.nw(lw[t])
                m = W.dot(sim.pt.traj[t].pa.part)
                if not np.max(np.abs(w[t] - W)) < 1e-12:
                    return r.fail('weights', 'weights of t=%d: %r, normalised filter weights %r' % (t, w[t], W), lw=lw)
                if not np.max(np.abs(m - mean[t])) <= 1e-9 * max(1.0, np.max(np.abs(m))):
                    return r.fail('mean', 'filtered mean of t=%d %r, weighted mean %r' % (t, mean[t], m), lw=lw)
                if not np.array_equal(est[t], sim.pt.traj[t].pa.part):
                    return r.fail('filtered', 'filtered estimates of t=%d are not the particles' % t, lw=lw)
    r.outcome((N, T))


def f_params(r):
    """set_params hands a copy of the parameters to the model."""
    from pyparticleest.simulator import Simulator
    for params in ([1.0], [1.0, -2.0], (0.5, 0.25, 3.0)):
        got = []

        class M(object):
            def set_params(self, params):
                got.append(params)
        arr = np.asarray(params, dtype=float)
        s = Simulator(M(), None, [0.0, 1.0])
        s.set_params(arr)
        r.states += 1
        r.executions += 1
        r.transitions += 1
        if len(got) != 1 or not np.array_equal(np.asarray(got[0]), np.asarray(params)):
            return r.fail('params', 'model received %r for %r' % (got, params))
        if not np.array_equal(s.params, np.asarray(params)):
            return r.fail('params', 'simulator stores %r for %r' % (s.params, params))
        arr[0] = 99.0
        if s.params[0] == 99.0 or got[0][0] == 99.0:
            return r.fail('params', 'set_params keeps a reference to the caller\'s array')
    r.outcome('params')


def tasks():
    out = [('f_params', {})] + [('f_weights', dict(N=n, T=T)) for n, T in ((1, 1), (2, 1), (2, 2), (3, 1))]
    for filt in FILTERS:
        low = filt.lower()
        for mf in (True, False):
            for sm in range(NSM):
                T = 3 if SM[sm][0] in (None, 'full', 'ancestor', 'mcmc') else 2
                out.append(('f_sim', dict(filt=filt, sm=sm, N=2, M=1, T=T, mf=mf)))
                out.append(('f_sim', dict(filt=filt, sm=sm, N=3, M=2, T=2, mf=mf, vec=True, loglike=-3.5)))
        if low in ('pf', 'apf', 'cpf', 'cpfas'):
            for miss in ((1,), (2,), (1, 2)):
                out.append(('f_sim', dict(filt=filt, sm=0, N=2, M=2, T=3, mf=True, missing=miss)))
        out.append(('f_sim', dict(filt=filt, sm=7, N=3, M=4, T=2, mf=True)))
    for filt in ('pf', 'apf', 'sir', 'cpf'):
        # longer series, likelihoods whose exponentials leave the range of floats
        for k, ll in enumerate((0.0, 1000.0, -1000.0, 30000.0)):
            out.append(('f_sim', dict(filt=filt, sm=(8, 0, 7, 8)[k], N=2, M=2, T=4 + k % 2, mf=k % 2 == 0, loglike=ll, dev=2)))
    for sm in range(NSM, len(SM)):
        for k, filt in enumerate(('pf', 'apf', 'cpf')):
            out.append(('f_sim', dict(filt=filt, sm=sm, N=3 + 4 * k, M=(1, 3, 9)[k], T=2 + k, mf=k != 1, missing=((), (), (1,))[k], dev=list(range(3 if not THOROUGH else 20)))))
    for sm in (0, 3, 7):
        for mf in (True, False):
            out.append(('f_sim', dict(filt='pf', sm=sm, N=2, M=2, T=3, mf=mf, nou=True)))
            out.append(('f_sim', dict(filt='apf', sm=sm, N=2, M=2, T=3, mf=mf, nou=True)))
    if THOROUGH:
        for n, k in out[:]:
            if n == 'f_sim' and not isinstance(k.get('dev'), list):
                k2 = dict(k, dev=5)
                out.append((n, k2))
    return out
