"""C16: the mixed linear/nonlinear Gaussian filter against the exact conditional distribution."""
import itertools
import numpy as np
from lib import seam, gauss, mix
from lib.env import THOROUGH

CONFS = ('pure', 'ext')


def particle(S, xi):
    z, P = S.init_z(xi)
    return np.concatenate([np.asarray(xi, dtype=float).ravel(), z.ravel(), P.ravel()])


def compare(r, m, part, refs, ctx):
    xil, zl, Pl = m.get_states(part)
    for i, rf in enumerate(refs):
        wz, wP = rf.state()
        if not gauss.close(xil[i], rf.xi[-1]):
            return r.fail('xi', 'nonlinear state %r instead of %r' % (xil[i], rf.xi[-1]), **ctx)
        if not gauss.close(zl[i], wz, 1e-7) or not gauss.close(Pl[i], wP, 1e-7):
            return r.fail('state', 'linear state %r %r instead of %r %r' % (zl[i], Pl[i], wz, wP), **ctx)
    return True


def f_history(r, lxi, lz, ly, kinds, depth, cls='sampled', qz0=False, initdep=False):
    """Every sequence of propagate (with each noise of the alphabet) / measure (each y) calls."""
    S = mix.Mix(lxi, lz, ly, kinds, qz0=qz0, initdep=initdep)
    noises = [gauss.vec(lxi, 3), -1.5 * gauss.vec(lxi, 8)]
    ys = [gauss.vec(ly, 6) * 2.0]
    ops = [('u', k) for k in range(len(noises))] + [('m', k) for k in range(len(ys))]
    N = 3
    xi0 = [S.xi0 + (i - 1) * gauss.vec(lxi, i) for i in range(N)]
    for seq in itertools.product(ops, repeat=depth):
        m = S.make(cls)
        part = np.asarray([particle(S, x) for x in xi0])
        refs = [S.start(x) for x in xi0]
        ctx = dict(seq=repr(seq), kinds=kinds)
        for k, (op, j) in enumerate(seq):
            t = float(refs[0].t)
            r.transitions += 1
            if op == 'u':
                u = float((2 * k + 1) % 3)
                pred = np.asarray(m.pred_xi(part, u, t))
                nz = np.asarray([noises[j] * (1.0 + 0.2 * i) for i in range(N)])
                for i in range(N):
                    # the prediction of the nonlinear state
                    xn, _ = refs[i].clone().step_vars(u)
                    wm, _c = gauss.condition(xn, refs[i].obs)
                    if not gauss.close(pred[i], wm, 1e-7):
                        return r.fail('predict', 'predicted nonlinear state %r instead of %r' % (pred[i], wm), **ctx)
                ret = m.update(part, u, t, nz)
                part = np.asarray(ret)
                for i in range(N):
                    refs[i].advance(pred[i] + nz[i], u)
            else:
                y = ys[j] * (1.0 + 0.3 * k)
                lp = np.asarray(m.measure(part, y.reshape(-1, 1).copy(), t), dtype=float)
                want = [refs[i].measure(y) for i in range(N)]
                if lp.shape != (N,) or not gauss.close(lp, want, 1e-7):
                    return r.fail('likelihood', 'measurement log-weights %r instead of %r' % (lp, want), **ctx)
            r.states += 1
            if compare(r, m, part, refs, ctx) is not True:
                return
        r.executions += 1
    r.outcome('history %d %d %d' % (lxi, lz, ly))
    r.sample(kinds=kinds, depth=depth)


def f_proposal(r, lxi, lz, kinds, N, steps_=1):
    """The sampled nonlinear state has exactly the predictive mean and covariance (jointly over
    particles), given each particle's own past."""
    S = mix.Mix(lxi, lz, 1, kinds)
    st = seam.Stats()
    xi0 = [S.xi0 + (i - 1) * gauss.vec(lxi, i) for i in range(N)]
    m = S.make()
    part = np.asarray([particle(S, x) for x in xi0])
    refs = [S.start(x) for x in xi0]
    for k in range(steps_):
        nz = np.asarray([gauss.vec(lxi, i + k) for i in range(N)])
        y = gauss.vec(1, k)
        m.measure(part, y.reshape(-1, 1), float(k))
        pred = np.asarray(m.pred_xi(part, 1.0, float(k)))
        part = np.asarray(m.update(part, 1.0, float(k), nz))
        for i in range(N):
            refs[i].measure(y)
            refs[i].advance(pred[i] + nz[i], 1.0)
    t = float(steps_)
    # drawn by the filter, or proposed to a Metropolis-Hastings smoother (from any ancestors)
    ancs = [None, list(range(N)), list(range(N))[::-1], [0] * N]
    past = refs
    for u, anc in itertools.product((0.0, 2.0), ancs):
        dist = []
        refs = past if anc is None else [past[a] for a in anc]

        def draw(c):
            if anc is None:
                return simulate(m, part.copy(), u, t)
            return propose(m, part.copy(), anc, u, t, steps_)
        for p, ch, out in seam.explore(draw, normal='gh3' if N * lxi <= 3 else 'pm1', stats=st):
            out = np.asarray(out)
            if out.shape != (N, S.lxi + S.lz + S.lz ** 2):
                return r.fail('shape', 'particles of shape %r' % (out.shape,))
            dist.append((p, out[:, :lxi].reshape(-1)))
            r.states += 1
            # every sampled particle is again exactly conditioned
            for i in range(N):
                rf = refs[i].clone()
                rf.advance(out[i, :lxi], u)
                wz, wP = rf.state()
                _, zl, Pl = m.get_states(out)
                if not gauss.close(zl[i], wz, 1e-7) or not gauss.close(Pl[i], wP, 1e-7):
                    return r.fail('state', 'linear state after sampling %r instead of %r' % (zl[i], wz), choices=ch, kinds=kinds)
        mean, C = gauss.moments(dist)
        wm, W = [], np.zeros((N * lxi, N * lxi))
        for i in range(N):
            xn, _ = refs[i].clone().step_vars(u)
            a, b = gauss.condition(xn, refs[i].obs)
            wm.extend(a)
            W[i * lxi:i * lxi + lxi, i * lxi:i * lxi + lxi] = b
        if not gauss.close(mean, wm, 1e-7) or not gauss.close(C, W, 1e-7):
            return r.fail('proposal', 'nonlinear state drawn with mean %r covariance %r instead of %r %r' % (mean, C, wm, W), kinds=kinds, u=u)
    r.add(st)
    r.outcome('proposal')


class Step(object):
    def __init__(self, part):
        from pyparticleest.filter import ParticleApproximation
        self.pa = ParticleApproximation(part)
        self.ancestors = np.arange(len(part))


def propose(m, part, anc, u, t, steps_):
    """The same draw by the proposal of a Metropolis-Hastings smoother for time t + 1."""
    old = Step(np.full_like(part, 9.0))
    ut = [1.0] * steps_ + [u, 1.0]
    out = m.propose_smooth([old] * steps_ + [Step(part)], np.asarray(anc, dtype=int), None, np.arange(len(anc)), [None] * (steps_ + 2), ut,
                           np.arange(steps_ + 2.0), steps_ + 1)
    return np.asarray(out)


def simulate(m, part, u, t):
    return m.update(part, u, t, m.sample_process_noise(part, u, t))


def f_initial(r, lxi, lz, N, pxi0, initdep, pz0=None):
    S = mix.Mix(lxi, lz, 1, mix.kinds('c'), pxi0=pxi0, initdep=initdep, pz0=pz0)
    st = seam.Stats()
    for cls in ('sampled', 'marg'):
        m = S.make(cls)
        dist = []
        for p, ch, out in seam.explore(lambda c: m.create_initial_estimate(N), normal='pm1', stats=st):
            out = np.asarray(out)
            xil, zl, Pl = m.get_states(out)
            r.states += 1
            for i in range(N):
                wz, wP = S.init_z(out[i, :lxi])
                if not gauss.close(zl[i], wz) or not gauss.close(Pl[i], wP):
                    return r.fail('initial', 'initial linear state %r %r instead of %r %r' % (zl[i], Pl[i], wz, wP))
            dist.append((p, out[:, :lxi].reshape(-1)))
        mean, C = gauss.moments(dist)
        W = np.kron(np.eye(N), np.zeros((lxi, lxi)) if S.Pxi0 is None else S.Pxi0)
        if not gauss.close(mean, np.tile(S.xi0, N)) or not gauss.close(C, W):
            return r.fail('initial', 'initial nonlinear state with mean %r covariance %r' % (mean, C))
    r.add(st)
    r.outcome('initial')


def f_run(r, lxi, lz, ly, kinds, filt, T, N, mf, cls='sampled', dev=3):
    """Through the real filters: every stored particle is exactly conditioned on the nonlinear
    trajectory given by its own ancestors, and its likelihood is the exact predictive one."""
    from pyparticleest.simulator import Simulator
    S = mix.Mix(lxi, lz, ly, kinds)
    st = seam.Stats()
    us = [float((2 * t + 1) % 3) for t in range(T)]
    for miss in itertools.product((0, 1), repeat=T):
        ys = [None if miss[t] else gauss.yvec(ly, t) for t in range(T)]
        if not mf:
            if not miss[0]:
                continue
            ys[0] = None
        log = []
        memo = {}
        m = S.make(cls, log)

        def body(c):
            del log[:]
            yin = [None if y is None else y.reshape(-1, 1).copy() for y in (ys if mf else ys[1:])]
            sim = Simulator(m, us[:T - 1], yin)
            sim.simulate(N, 1, filter=filt, smoother=None, res=0.67, meas_first=mf)
            return sim
        for p, ch, sim in seam.explore(body, cells=seam.make_cells((), 3), normal='pm1', stats=st, dev=dev):
            ctx = dict(filter=filt, choices=ch, missing=miss, meas_first=mf, kinds=kinds)
            refs = [None] * N
            for t in range(T):
                part = np.asarray(sim.pt.traj[t].pa.part)
                anc = sim.pt.traj[t].ancestors
                new = []
                xil, zl, Pl = m.get_states(part)
                for i in range(N):
                    path = (() if t == 0 else refs[int(anc[i])]) + (tuple(part[i, :lxi].tolist()),)
                    if path not in memo:
                        rf = S.start(path[0])
                        lp = None
                        for k in range(t + 1):
                            if k:
                                rf.advance(path[k], us[k - 1])
                            if ys[k] is not None:
                                lp = rf.measure(ys[k])
                        memo[path] = rf.state() + (lp,)
                    wz, wP, lp = memo[path]
                    if ys[t] is not None:
                        logs = [l for l in log if l[0] == t]
                        if len(logs) < 1 or not gauss.close(logs[-1][2][i], lp, 1e-7):
                            return r.fail('likelihood', 'log-weight of particle %d at t=%d: %r instead of %r' % (i, t, logs and logs[-1][2], lp), **ctx)
                    if not gauss.close(zl[i], wz, 1e-7) or not gauss.close(Pl[i], wP, 1e-7):
                        return r.fail('state', 'linear state %r %r instead of %r %r' % (zl[i], Pl[i], wz, wP), **ctx)
                    new.append(path)
                refs = new
                r.states += 1
    r.add(st)
    r.outcome('run %s' % filt)


def tasks():
    out = []
    cfg = mix.configs(THOROUGH)
    dims = ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 2))
    for k, kd in enumerate(cfg):
        for j, (lxi, lz, ly) in enumerate(dims):
            if not THOROUGH and (k + j) % 2:
                continue
            out.append(('f_history', dict(lxi=lxi, lz=lz, ly=ly, kinds=kd, depth=3 if not THOROUGH else 4, cls='sampled' if (k + j) % 3 else 'marg', qz0=(k % 5 == 4 and kd['Qxiz'] == 'd'), initdep=bool(k % 2))))
        lxi, lz, ly = dims[k % 4]
        out.append(('f_proposal', dict(lxi=lxi, lz=lz, kinds=kd, N=2, steps_=k % 3)))
    for kd in (cfg[0], cfg[1], cfg[2]):
        for d in ((1, 2, 1), (2, 1, 2), (2, 3, 1), (3, 1, 2)):
            out.append(('f_history', dict(lxi=d[0], lz=d[1], ly=d[2], kinds=kd, depth=4)))
        for filt in ('pf', 'apf'):
            for cls in ('sampled', 'marg'):
                for mf in (True, False):
                    for lxi, lz, ly in ((1, 1, 1), (2, 2, 1), (1, 2, 2)):
                        out.append(('f_run', dict(lxi=lxi, lz=lz, ly=ly, kinds=kd, filt=filt, T=3, N=3 if lxi == 1 else 2, mf=mf, cls=cls, dev=2 if not THOROUGH else 3)))
    for lxi, lz, N in ((1, 1, 3), (2, 1, 2), (1, 2, 2), (2, 2, 2)):
        for pxi0, initdep in itertools.product((True, False), repeat=2):
            out.append(('f_initial', dict(lxi=lxi, lz=lz, N=N, pxi0=pxi0, initdep=initdep)))
            if not initdep:
                out.append(('f_initial', dict(lxi=lxi, lz=lz, N=N, pxi0=pxi0, initdep=False, pz0=False)))
    return out
