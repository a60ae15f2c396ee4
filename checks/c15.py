"""C15: the LTV model against batch Gaussian conditioning, over all step sequences and configurations."""
import itertools
import numpy as np
from lib import seam, gauss
from lib.env import THOROUGH

CONFS = ('pure', 'ext')

NAMES = ('A', 'f', 'Q', 'C', 'h', 'R')
KINDS = {'A': ('c', 't'), 'f': ('c', 't', 'd'), 'Q': ('c', 't'), 'C': ('c', 't'), 'h': ('c', 't', 'd'), 'R': ('c', 't')}


class Sys(object):
    """kinds: dict name -> 'c' constant (constructor), 't' depends on time and input (overridden
    method), 'd' left at its default; q0: singular process noise; p0: singular initial covariance."""

    def __init__(self, lz, ly, kinds, q0=False, p0=False):
        self.lz, self.ly, self.kinds, self.q0, self.p0 = lz, ly, kinds, q0, p0
        self.z0 = gauss.vec(lz, 2)
        self.P0 = gauss.spd(lz, 1) if not p0 else np.zeros((lz, lz))

    def get(self, n, t, u=0.0):
        lz, ly = self.lz, self.ly
        if self.kinds[n] == 'd':
            return np.zeros((lz, 1)) if n == 'f' else np.zeros((ly, 1))
        k = 1 if self.kinds[n] == 'c' else 2 + int(t) + 3 * int(u)
        if n == 'A':
            return gauss.mat(lz, lz, k)
        if n == 'f':
            return gauss.vec(lz, k).reshape(-1, 1)
        if n == 'Q':
            if self.q0:
                return np.zeros((lz, lz))
            return gauss.spd(lz, k)
        if n == 'C':
            return gauss.mat(ly, lz, k + 30)
        if n == 'h':
            return gauss.vec(ly, k + 5).reshape(-1, 1)
        return gauss.spd(ly, k + 1)

    def make(self, log=None):
        from pyparticleest.models.ltv import LTV
        sys_ = self

        def const(n):
            return sys_.get(n, 0) if sys_.kinds[n] == 'c' else None

        def tv(n, t, u=0.0):
            return sys_.get(n, t, u) if sys_.kinds[n] == 't' else None

        class M(LTV):
            def __init__(self):
                super(M, self).__init__(z0=sys_.z0, P0=sys_.P0, **{n: const(n) for n in NAMES})

            if any(self.kinds[n] == 't' for n in ('A', 'f', 'Q')):
                def get_pred_dynamics(self, u, t):
                    return (tv('A', t, u), tv('f', t, u), tv('Q', t, u))
            if any(self.kinds[n] == 't' for n in ('C', 'h', 'R')):
                def get_meas_dynamics(self, y, t):
                    return (y, tv('C', t), tv('h', t), tv('R', t))

            def measure(self, particles, y, t):
                out = super(M, self).measure(particles, y, t)
                if log is not None:
                    log.append((float(t), np.array(y, copy=True), np.array(out, copy=True)))
                return out
        return M()

    def joint(self, T, us):
        """States z_0..z_{T-1} and noise-free measurement maps."""
        sp = gauss.Space()
        z = [sp.new(self.z0, self.P0)]
        for t in range(T - 1):
            z.append(z[t].lin(self.get('A', t, us[t])) + self.get('f', t, us[t]) + sp.new(np.zeros(self.lz), self.get('Q', t, us[t])))
        self.sp = sp
        return z

    def meas(self, z, t):
        return z.lin(self.get('C', t)) + self.get('h', t) + self.sp.new(np.zeros(self.ly), self.get('R', t))


def yval(ly, t, k):
    return gauss.yvec(ly, t, k)


def f_history(r, lz, ly, kinds, depth, p0, q0):
    """Every sequence of update / measure calls on the model up to the depth."""
    s = Sys(lz, ly, kinds, q0, p0)
    for L in range(1, depth + 1):
        for seq in itertools.product('um', repeat=L):
            for N in (1, 2):
                m = s.make()
                part = m.create_initial_estimate(N)
                sp = gauss.Space()
                s.sp = sp
                z = sp.new(s.z0, s.P0)
                obs = []
                t = 0
                ctx = dict(seq=''.join(seq), kinds=kinds, N=N)
                for k, op in enumerate(seq):
                    r.transitions += 1
                    if op == 'u':
                        u = float((k * 2) % 3)
                        nz = m.sample_process_noise(part, u, float(t))
                        ret = m.update(part, u, float(t), nz)
                        part = ret if ret is not None else part
                        z = z.lin(s.get('A', t, u)) + s.get('f', t, u) + sp.new(np.zeros(lz), s.get('Q', t, u))
                        t += 1
                    else:
                        yv = s.meas(z, t)
                        y = yval(ly, t, k)
                        lp = np.asarray(m.measure(part, y.reshape(-1, 1).copy(), float(t)), dtype=float)
                        want = gauss.logcond(yv, y, obs)
                        obs.append((yv, y))
                        if lp.shape != (N,) or not gauss.close(lp, [want] * N):
                            return r.fail('likelihood', 'predictive log-density %r instead of %r' % (lp, want), step=k, **ctx)
                    wz, wP = gauss.condition(z, obs)
                    zl, Pl = m.get_states(part)
                    r.states += 1
                    for i in range(N):
                        if not gauss.close(zl[i], wz) or not gauss.close(Pl[i], wP):
                            return r.fail('filter', 'state after %r: %r %r instead of %r %r' % (seq[:k + 1], zl[i], Pl[i], wz, wP), **ctx)
                r.executions += 1
    r.outcome('history')


def f_run(r, lz, ly, kinds, T, mf, N, M, smoother, q0=False, nou=False):
    """Filter and smoother through the simulator, every pattern of missing measurements."""
    from pyparticleest.simulator import Simulator
    s = Sys(lz, ly, kinds, q0)
    us = [float((2 * t + 1) % 3) for t in range(T)]
    for miss in itertools.product((0, 1), repeat=T):
        ys = [None if miss[t] else yval(ly, t, 1) for t in range(T)]
        if not mf:
            if miss[0]:
                continue
            ys[0] = None
        log = []
        m = s.make(log)
        yin = [None if y is None else y.reshape(-1, 1).copy() for y in (ys if mf else ys[1:])]
        cells = seam.make_cells((), 2)
        with seam.active(seam.Controller(cells=cells)):
            sim = Simulator(m, [np.asarray([us[t]]) if nou else us[t] for t in range(T - 1)], yin)
            sim.simulate(N, M, filter='pf', smoother=smoother, meas_first=mf,
                         smoother_options={'R': 2} if smoother == 'mcmc' else None)
        z = s.joint(T, us)
        yv = [s.meas(z[t], t) for t in range(T)]
        ctx = dict(kinds=kinds, missing=miss, meas_first=mf, smoother=smoother, N=N, M=M)
        obs = []
        wl = []
        r.executions += 1
        for t in range(T):
            if ys[t] is not None:
                wl.append((t, gauss.logcond(yv[t], ys[t], obs)))
                obs.append((yv[t], ys[t]))
            wz, wP = gauss.condition(z[t], obs)
            zl, Pl = m.get_states(sim.pt.traj[t].pa.part)
            r.states += 1
            r.transitions += 1
            if len(zl) != N:
                return r.fail('number', '%d particles instead of %d' % (len(zl), N), **ctx)
            for i in range(N):
                if not gauss.close(zl[i], wz) or not gauss.close(Pl[i], wP):
                    return r.fail('filter', 'filtered state at t=%d: %r %r instead of %r %r' % (t, zl[i], Pl[i], wz, wP), **ctx)
        got = [(t, v) for t, _, v in log]
        if [t for t, _ in got] != [t for t, _ in wl]:
            return r.fail('likelihood', 'likelihood evaluated at %r instead of %r' % ([t for t, _ in got], [t for t, _ in wl]), **ctx)
        for (t, v), (_, w) in zip(got, wl):
            if not gauss.close(v, [w] * N):
                return r.fail('likelihood', 'predictive log-density at t=%d %r instead of %r' % (t, v, w), **ctx)
        for t in range(T):
            p = sim.straj.traj[t].pa.part
            wz, wP = gauss.condition(z[t], obs)
            zl, Pl = m.get_states(p)
            r.states += 1
            if len(zl) != M:
                return r.fail('number', '%d trajectories instead of %d' % (len(zl), M), **ctx)
            wM = np.zeros((lz, lz))
            if t + 1 < T:
                wM = gauss.condition(gauss.stack([z[t], z[t + 1]]), obs)[1][:lz, lz:]
            for i in range(M):
                if not gauss.close(zl[i], wz, 1e-7) or not gauss.close(Pl[i], wP, 1e-7):
                    return r.fail('smoother', 'smoothed state at t=%d: %r %r instead of %r %r' % (t, zl[i], Pl[i], wz, wP), **ctx)
                Mz = np.asarray(p)[i, lz + lz * lz:]
                if t + 1 < T and not gauss.close(Mz, wM, 1e-7):
                    return r.fail('lagone', 'lag-one covariance at t=%d: %r instead of %r' % (t, Mz, wM), **ctx)
        r.outcome('%s %r' % (smoother, miss))
    r.sample(lz=lz, ly=ly, kinds=kinds, T=T)


def f_pack(r):
    """set_states / get_states are inverse to each other and touch nothing else."""
    for lz in (1, 2, 3):
        kinds = {n: 'c' for n in NAMES}
        m = Sys(lz, 1, kinds).make()
        for N in (1, 2, 3):
            for extra in (0, lz * lz, 2):
                p = 100.0 + np.arange(N * (lz + lz * lz + extra), dtype=float).reshape(N, -1)
                z = [gauss.vec(lz, i).reshape(-1, 1) for i in range(N)]
                P = [gauss.mat(lz, lz, i) for i in range(N)]
                q = p.copy()
                m.set_states(q, z, P)
                zl, Pl = m.get_states(q)
                r.states += 1
                r.executions += 1
                for i in range(N):
                    if not gauss.close(zl[i], z[i]) or np.shape(zl[i]) != (lz, 1) or not gauss.close(Pl[i], P[i]) or np.shape(Pl[i]) != (lz, lz):
                        return r.fail('pack', 'get_states returns %r %r for %r %r' % (zl[i], Pl[i], z[i], P[i]))
                if not np.array_equal(q[:, lz + lz * lz:], p[:, lz + lz * lz:]):
                    return r.fail('pack', 'set_states writes outside the state')
    r.transitions += 1
    r.outcome('pack')


def f_backstep(r, lz, kinds, q0=False):
    """One backward step from distinct filter states and distinct futures, every assignment of futures."""
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    s = Sys(lz, 1, kinds, q0)
    m = s.make()
    for K, M in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
        fut = np.empty((K, lz + 2 * lz * lz))
        for k in range(K):
            fut[k] = np.hstack((gauss.vec(lz, 7 + k), 0.3 * gauss.spd(lz, k).ravel(), gauss.mat(lz, lz, k).ravel()))
        part = np.empty((M, lz + lz * lz))
        for j in range(M):
            part[j] = np.hstack((gauss.vec(lz, 3 + 2 * j), gauss.spd(lz, 1 + j).ravel()))
        for find in itertools.product(range(K), repeat=M):
            for cur in (0, 1, 2):
                ut = [1.0, 2.0, 0.0, 1.0]
                tt = [0.0, 1.0, 2.0, 3.0]
                ft = np.empty((1,), dtype=object)
                ft[0] = TrajectoryStep(ParticleApproximation(fut))
                p0 = part.copy()
                res = m.sample_smooth(part=part, ptraj=None, anc=np.arange(M), future_trajs=ft, find=np.asarray(find),
                                      ut=ut, yt=[None] * 4, tt=tt, cur_ind=cur)
                r.states += 1
                r.executions += 1
                r.transitions += M
                ctx = dict(lz=lz, kinds=kinds, find=find, cur=cur)
                if not np.array_equal(part, p0):
                    return r.fail('backstep:modified', 'the filter particles were modified', **ctx)
                if np.shape(res) != (M, lz + 2 * lz * lz):
                    return r.fail('backstep:shape', 'shape %r' % (np.shape(res),), **ctx)
                A, f, Q = (s.get(n, cur, ut[cur]) for n in 'AfQ')
                for j in range(M):
                    z, P = part[j, :lz], part[j, lz:].reshape(lz, lz)
                    zn, Pn = fut[find[j], :lz], fut[find[j], lz:lz + lz * lz].reshape(lz, lz)
                    # (z, z') jointly Gaussian; z' then gets the law of the future
                    S = A.dot(P).dot(A.T) + Q
                    G = P.dot(A.T).dot(np.linalg.pinv(S))
                    wz = z + G.dot(zn - A.dot(z) - f.ravel())
                    wP = P - G.dot(S).dot(G.T) + G.dot(Pn).dot(G.T)
                    want = np.hstack((wz, wP.ravel(), G.dot(Pn).ravel()))
                    if not gauss.close(res[j], want, 1e-7):
                        return r.fail('backstep', 'particle %d with future %d: %r instead of %r' % (j, find[j], res[j], want), **ctx)
    r.outcome('backstep %d' % lz)


def tasks():
    out = [('f_pack', {})]
    for lz in (1, 2, 3):
        for kinds in (dict(zip(NAMES, 'cccccc')), dict(zip(NAMES, 'tttttt')), dict(zip(NAMES, 'tdcccc')), dict(zip(NAMES, 'cdtccc'))):
            out.append(('f_backstep', dict(lz=lz, kinds=kinds)))
            out.append(('f_backstep', dict(lz=lz, kinds=kinds, q0=True)))
    combos = [dict(zip(NAMES, c)) for c in itertools.product(*[KINDS[n] for n in NAMES])]
    for k, kinds in enumerate(combos):
        for j, (lz, ly) in enumerate(((1, 1), (2, 1), (1, 2), (2, 2))):
            if THOROUGH or (k + j) % 2 == 0:
                out.append(('f_history', dict(lz=lz, ly=ly, kinds=kinds, depth=3 if not THOROUGH else 5, p0=bool((k + j) % 3 == 0), q0=bool((k // 2 + j) % 3 == 0))))
            if THOROUGH or (k + j) % 2 == 1:
                for mf in (True, False):
                    out.append(('f_run', dict(lz=lz, ly=ly, kinds=kinds, T=3 if not THOROUGH else 4, mf=mf, N=1 + k % 2, M=1 + (k // 2) % 2, smoother='full')))
    for lz, ly in ((1, 1), (2, 1), (2, 2), (3, 2)):
        for kinds in (combos[0], combos[-1], dict(zip(NAMES, 'tttttt')), dict(zip(NAMES, 'tdtcdc')), dict(zip(NAMES, 'cctctc'))):
            out.append(('f_history', dict(lz=lz, ly=ly, kinds=kinds, depth=5, p0=False, q0=False)))
            out.append(('f_run', dict(lz=lz, ly=ly, kinds=kinds, T=4, mf=True, N=2, M=3, smoother='full')))
            out.append(('f_run', dict(lz=lz, ly=ly, kinds=kinds, T=4, mf=True, N=1, M=1, smoother='full', q0=True)))
            out.append(('f_run', dict(lz=lz, ly=ly, kinds=kinds, T=3, mf=True, N=2, M=2, smoother='mcmc')))
    return out
