"""C17: Rao-Blackwellised smoothing gives the exact conditional statistics."""
import itertools
import numpy as np
from lib import seam, gauss, mix, hier
from lib.env import THOROUGH

CONFS = ('pure', 'ext')


class Fake(object):
    """The part of a smoothed trajectory the models use."""

    def __init__(self, xis, us, ys, anc=None):
        from pyparticleest.filter import ParticleApproximation, TrajectoryStep
        T = len(us) + 1
        M = len(xis)
        self.traj = np.empty((T,), dtype=object)
        for t in range(T):
            # only the nonlinear states are meaningful; the rest is rubbish
            p = np.hstack([np.asarray([xis[m][t] for m in range(M)]), 77.0 + np.arange(M).reshape(-1, 1)])
            self.traj[t] = TrajectoryStep(ParticleApproximation(p), np.arange(M))
        self.u = np.asarray(list(us) + [55.0])
        self.y = np.empty((T,), dtype=object)
        for t in range(T):
            self.y[t] = ys[t]
        self.t = np.arange(T, dtype=float)
        self.M = M

    def __len__(self):
        return len(self.traj)


def build(kind, lxi, lz, ly, kinds, **kw):
    if kind == 'hier':
        return hier.Hier(lxi, lz, ly, kinds, initdep=kw.get('initdep', False))
    return mix.Mix(lxi, lz, ly, kinds, **kw)


def ydim(kind, ly):
    return ly + 1 if kind == 'hier' else ly


def make(S, kind):
    return S.make() if kind == 'hier' else S.make('marg' if kind == 'marg' else 'sampled')


def refs(S, path, us, ys):
    """Filter refs after each time, and the full ref."""
    rf = S.start(path[0])
    out = []
    for t in range(len(path)):
        if t:
            rf.advance(path[t], us[t - 1])
        if ys[t] is not None:
            rf.measure(ys[t])
        out.append(rf.state())
    return out, rf


def judge(r, m, S, traj, paths, us, ys, ctx, filt=False, lag=True, memo=None):
    T = len(us) + 1
    memo = {} if memo is None else memo
    if len(traj) != T:
        return r.fail('length', '%d steps' % len(traj), **ctx)
    for j, path in enumerate(paths):
        key = tuple(tuple(np.ravel(x).tolist()) for x in path)
        if key not in memo:
            f, rf = refs(S, path, us, ys)
            memo[key] = (f, [rf.state(t) for t in range(T)], [rf.lag(t) for t in range(T - 1)])
        f, s, l = memo[key]
        for t in range(T):
            p = np.asarray(traj[t].pa.part)
            if len(p) != len(paths):
                return r.fail('number', '%d trajectories' % len(p), **ctx)
            xil, zl, Pl = m.get_states(p)
            wz, wP = f[t] if filt else s[t]
            r.states += 1
            if not gauss.close(xil[j], path[t]):
                return r.fail('xi', 'nonlinear state at t=%d is %r instead of %r' % (t, xil[j], path[t]), **ctx)
            if not gauss.close(zl[j], wz, 1e-6) or not gauss.close(Pl[j], wP, 1e-6):
                return r.fail('filter' if filt else 'smooth', '%s statistics of trajectory %d at t=%d: %r %r instead of %r %r' % ('filter' if filt else 'smoothed', j, t, zl[j], Pl[j], wz, wP), **ctx)
            if not filt and lag and t + 1 < T:
                Mz = m.get_Mz(p)[j]
                if not gauss.close(Mz, l[t], 1e-6):
                    return r.fail('lagone', 'lag-one covariance of trajectory %d at t=%d: %r instead of %r' % (j, t, Mz, l[t]), **ctx)
    return True


def f_grid(r, kind, lxi, lz, ly, kinds, T, M, qz0=False, initdep=False):
    """post_smoothing / pre_mhips_pass on every trajectory of a grid and every missing pattern."""
    S = build(kind, lxi, lz, ly, kinds, **(dict(qz0=qz0) if kind != 'hier' else {}), initdep=initdep)
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    alts = [[S.xi0 + gauss.vec(lxi, 2 * t), S.xi0 - 1.3 * gauss.vec(lxi, 2 * t + 1)] for t in range(T)]
    paths = [list(p) for p in itertools.product(*alts)]
    yd = ydim(kind, ly)
    for miss in itertools.product((0, 1), repeat=T):
        ys = [None if miss[t] else gauss.yvec(yd, t, 1).reshape(-1, 1) for t in range(T)]
        m = make(S, kind)
        memo = {}
        for k in range(0, len(paths), M):
            grp = [paths[(k + 3 * j) % len(paths)] for j in range(M)]
            ctx = dict(kind=kind, kinds=kinds, missing=miss, M=M)
            st = Fake(grp, us, ys)
            before = [np.array(s.pa.part, copy=True) for s in st.traj]
            traj = m.pre_mhips_pass(st)
            if judge(r, m, S, traj, grp, us, ys, ctx, filt=True, memo=memo) is not True:
                return
            traj = m.post_smoothing(st)
            if judge(r, m, S, traj, grp, us, ys, ctx, memo=memo) is not True:
                return
            if not all(np.array_equal(a, s.pa.part) for a, s in zip(before, st.traj)):
                return r.fail('mutate', 'smoothing changes the trajectory it was given', **ctx)
            # again from the processed trajectory: the statistics only depend on the nonlinear path
            st.traj = traj
            traj = m.post_smoothing(st)
            if judge(r, m, S, traj, grp, us, ys, dict(ctx, again=True), memo=memo) is not True:
                return
            r.executions += 3
            r.transitions += 3 * T
    r.outcome('grid %s' % kind)
    r.sample(kind=kind, kinds=kinds, T=T, M=M)


def f_run(r, kind, lxi, lz, ly, kinds, smoother, T, N, M, dev=2, missing=(), R=1, how='sim'):
    """Through the real smoothers: every returned trajectory carries the statistics of its own
    nonlinear path."""
    from pyparticleest.simulator import Simulator
    from pyparticleest.filter import ParticleTrajectory
    S = build(kind, lxi, lz, ly, kinds)
    st = seam.Stats()
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    yd = ydim(kind, ly)
    ys = [None if t in missing else gauss.yvec(yd, t).reshape(-1, 1) for t in range(T)]
    memo = {}

    def body(c):
        m = make(S, kind)
        opts = {'R': R} if smoother not in ('full', 'ancestor') else None
        if how != 'sim':
            # a trajectory driven step by step: vectors longer than the trajectory, or a measurement
            # that arrives after the step was made
            pt = ParticleTrajectory(m, N, resample=0.67, filter='pf', T=T + 2 if how == 'alloc' else None)
            if ys[0] is not None:
                pt.measure(ys[0].copy())
            for t in range(T - 1):
                y = None if ys[t + 1] is None else ys[t + 1].copy()
                pt.forward(us[t], None if how == 'late' else y)
                if how == 'late' and y is not None:
                    pt.measure(y)
            sim = Simulator(m, us, [None] * T)
            sim.pt = pt
            sim.straj = pt.perform_smoothing(M, method=smoother, smoother_options=opts)
            return m, sim
        sim = Simulator(m, us, [None if y is None else y.copy() for y in ys])
        sim.simulate(N, M, filter='pf', smoother=smoother, smoother_options=opts, res=0.67, meas_first=True)
        return m, sim
    for p, ch, (m, sim) in seam.explore(body, cells=seam.make_cells((), 3), normal='pm1', stats=st, dev=dev):
        ctx = dict(kind=kind, smoother=smoother, choices=ch, kinds=kinds, missing=missing, how=how)
        traj = sim.straj.traj
        paths = [[np.asarray(traj[t].pa.part)[j, :lxi] for t in range(T)] for j in range(M)]
        if judge(r, m, S, traj, paths, us, ys, ctx, memo=memo) is not True:
            return
    r.add(st)
    r.outcome('run %s %s' % (kind, smoother))


def tasks():
    out = []
    cfg = mix.configs(THOROUGH)
    dims = ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 2))
    for k, kd in enumerate(cfg):
        for j, (lxi, lz, ly) in enumerate(dims):
            if not THOROUGH and (k + j) % 4:
                continue
            out.append(('f_grid', dict(kind='marg' if (k + j) % 3 == 0 else 'sampled', lxi=lxi, lz=lz, ly=ly, kinds=kd, T=3, M=1 + k % 3, qz0=(k % 5 == 4 and kd['Qxiz'] == 'd'), initdep=bool(k % 2))))
    for k, kd in enumerate(hier.configs()):
        lxi, lz, ly = dims[k % 4]
        if k % 3 and not THOROUGH:
            continue
        out.append(('f_grid', dict(kind='hier', lxi=lxi, lz=lz, ly=ly, kinds=kd, T=3, M=1 + k % 3, initdep=bool(k % 2))))
    for kd in (cfg[0], cfg[1]):
        out.append(('f_grid', dict(kind='sampled', lxi=1, lz=2, ly=1, kinds=kd, T=4, M=2)))
    allsm = ('full', 'rs', 'rsas', 'mcmc', 'ancestor', 'mhips', 'mhips_reduced', 'mhbp')
    for kind, sms in (('sampled', allsm), ('marg', ('full', 'mcmc', 'ancestor')), ('hier', ('full', 'rs', 'rsas', 'mcmc', 'ancestor'))):
        for sm in sms:
            for lxi, lz, ly in ((1, 1, 1), (1, 2, 1)):
                for miss in ((), (0,), (1,), (2,)):
                    kd = cfg[1] if kind != 'hier' else hier.configs()[-1]
                    out.append(('f_run', dict(kind=kind, lxi=lxi, lz=lz, ly=ly, kinds=kd, smoother=sm, T=3, N=2, M=2, missing=miss, dev=1 if not THOROUGH else 2, R=1 + (lz == 2))))
            for how in ('alloc', 'late'):
                for miss in ((), (2,)):
                    out.append(('f_run', dict(kind=kind, lxi=1, lz=2, ly=1, kinds=kd, smoother=sm, T=3, N=2, M=2, missing=miss, dev=1, how=how)))
    return out
