"""C18: backward weights and sampled linear states of mixed linear/nonlinear Gaussian models."""
import itertools
import numpy as np
from lib import seam, gauss, mix
from lib.env import THOROUGH

CONFS = ('pure', 'ext')


def stats_alphabet(S):
    """Particles (xi, z mean, z covariance), including rank deficient covariances."""
    lz = S.lz
    v = gauss.vec(lz, 2)
    Ps = [gauss.spd(lz, 0), gauss.spd(lz, 4) * 2.0, np.zeros((lz, lz)), np.outer(v, v)]
    return [(S.xi0 + gauss.vec(S.lxi, 3 * k), gauss.vec(lz, 5 * k + 1) * 1.5, P) for k, P in enumerate(Ps)]


def pack(parts):
    return np.asarray([np.concatenate([x, z, P.ravel()]) for x, z, P in parts])


def ref_of(S, part, t):
    """Reference trajectory starting at time t from the particle's statistics."""
    rf = mix.Ref(S)
    rf.z = [None] * int(t) + [rf.sp.new(part[1], part[2])]
    rf.xi = [None] * int(t) + [np.asarray(part[0], dtype=float).ravel()]
    return rf


class Step(object):
    def __init__(self, part):
        from pyparticleest.filter import ParticleApproximation
        self.pa = ParticleApproximation(part)
        self.ancestors = np.arange(len(part))


def traj_array(parts):
    from pyparticleest.filter import ParticleApproximation, TrajectoryStep
    out = np.empty((len(parts),), dtype=object)
    for k, p in enumerate(parts):
        out[k] = TrajectoryStep(ParticleApproximation(p), np.arange(len(p)))
    return out


def f_sampled(r, lxi, lz, kinds, qz0=False):
    """logp_xnext, logp_xnext_singlestep over all (particle, next state) pairs of the alphabets and
    both call arrangements; the law of the linear state drawn by sample_smooth."""
    S = mix.Mix(lxi, lz, 1, kinds, qz0=qz0)
    parts = stats_alphabet(S)
    N = len(parts)
    nexts = [(S.xi0 + 2.0 * gauss.vec(lxi, k), gauss.vec(lz, 7 * k) * (1 + k)) for k in range(4)]
    nx = np.asarray([np.concatenate([a, b]) for a, b in nexts])
    filt = pack([(a, 9.0 + b, gauss.spd(lz, 1)) for a, b in nexts])
    ut = [0.0, 2.0, 1.0]
    tt = [0.0, 1.0, 2.0]
    yt = [None, None, None]
    m = S.make()
    for t in (0, 1, 2):
        u = ut[t]
        exact = np.empty((N, 4))
        exact1 = np.empty((N, 4))
        for i, p in enumerate(parts):
            rf = ref_of(S, p, t)
            xn, zn = rf.step_vars(u)
            for k, (a, b) in enumerate(nexts):
                if not qz0:
                    exact[i, k] = gauss.logcond(gauss.stack([xn, zn]), np.concatenate([a, b]), [])
                exact1[i, k] = gauss.logcond(xn, a, [])
        P = pack(parts)

        def calls(fn, ex, what):
            keep = P.copy()
            const = {}
            for k in range(4):
                got = np.asarray(fn(P, nx[k:k + 1], k), dtype=float)
                d = got - ex[:, k]
                if got.shape != (N,) or not gauss.close(d, d[0] * np.ones(N), 1e-7):
                    return r.fail(what, 'log-densities %r instead of %r (up to a constant)' % (got, ex[:, k]), kinds=kinds, t=t)
                const[k] = d[0]
                r.states += N
                # the same for smaller sets of particles against the one next state
                for sub in range(1, min(N, 4)) if what != 'proposal' else ():
                    got = np.asarray(fn(P[:sub], nx[k:k + 1], np.full(sub, k)), dtype=float)
                    r.states += sub
                    if got.shape != (sub,) or not gauss.close(got, ex[:sub, k] + const[k], 1e-7):
                        return r.fail(what + '-few', 'log-densities of %d particles %r instead of %r' % (sub, got, ex[:sub, k] + const[k]), kinds=kinds, t=t)
            for off in range(4):
                idx = [(i + off) % 4 for i in range(N)]
                got = np.asarray(fn(P, nx[idx], idx), dtype=float)
                w = np.asarray([ex[i, idx[i]] + const[idx[i]] for i in range(N)])
                if not gauss.close(got, w, 1e-7):
                    return r.fail(what + '-rows', 'log-densities %r instead of %r for one next state per particle' % (got, w), kinds=kinds, t=t)
                r.states += N
            if not np.array_equal(keep, P):
                return r.fail(what + '-mutates', 'the particles are changed', kinds=kinds)
            r.executions += 8
            r.transitions += 8
            return True

        fut = traj_array([nx, nx[::-1].copy()])
        if not qz0:
            if calls(lambda p, n, k: m.logp_xnext(p, n, u, float(t)), exact, 'xnext') is not True:
                return
            if calls(lambda p, n, k: m.logp_xnext_full(p, None, None, fut, np.full(N, k) if np.isscalar(k) else np.asarray(k), ut, yt, tt, t), exact, 'xnext_full') is not True:
                return
        if calls(lambda p, n, k: m.logp_xnext_singlestep(p, None, None, filt, np.full(N, k) if np.isscalar(k) else np.asarray(k), ut, yt, tt, t), exact1, 'singlestep') is not True:
            return
        # Metropolis-Hastings proposals: the previous particles propose, density of the proposal
        if t > 0:
            ptr = traj_array([P] * t)

            def prop(p, n, k):
                pp = np.zeros((N, S.lxi + S.lz + S.lz ** 2))
                pp[:, :] = filt[np.full(N, k) if np.isscalar(k) else np.asarray(k)]
                return m.logp_proposal(pp, ptr, np.arange(N), None, np.arange(N), yt, ut, tt, t)
            exact1 = np.asarray([[gauss.logcond(ref_of(S, p, t - 1).step_vars(ut[t - 1])[0], a, []) for a, b in nexts] for p in parts])
            if calls(prop, exact1, 'proposal') is not True:
                return
    r.outcome('sampled %d %d' % (lxi, lz))
    r.sample(kinds=kinds, lxi=lxi, lz=lz)


def f_initial(r, lxi, lz, kinds, initdep):
    """Conditioned on the nonlinear state the initial statistics are those of p(z_0 | xi_0), whatever
    statistics the particles carried."""
    S = mix.Mix(lxi, lz, 1, kinds, initdep=initdep)
    m = S.make()
    al = stats_alphabet(S)
    for M in (1, 2, 3):
        for sel in itertools.permutations(range(len(al)), M):
            P = pack([al[i] for i in sel])
            out = np.asarray(m.cond_sampled_initial(P.copy(), 0.0))
            r.states += M
            r.executions += 1
            r.transitions += 1
            want = []
            for i in sel:
                a, b = S.init_z(al[i][0])
                want.append(np.concatenate([np.ravel(al[i][0]), np.ravel(a), np.ravel(b)]))
            if out.shape[0] != M or not gauss.close(out[:, :len(want[0])], np.asarray(want)):
                return r.fail('initial', 'initial statistics %r instead of %r' % (out, want), kinds=kinds)
    r.outcome('initial')


def f_smooth(r, lxi, lz, kinds, M, last=False, qz0=False):
    """sample_smooth: the linear states of the M trajectories have exactly the conditional mean and
    covariance (jointly: independent between trajectories)."""
    S = mix.Mix(lxi, lz, 1, kinds, qz0=qz0)
    al = stats_alphabet(S)
    st = seam.Stats()
    m = S.make()
    nexts = [(S.xi0 + 2.0 * gauss.vec(lxi, k), gauss.vec(lz, 7 * k) * (1 + k)) for k in range(3)]
    nx = np.asarray([np.concatenate([a, b]) for a, b in nexts])
    fut = traj_array([nx, nx[::-1].copy()])
    ut, tt, yt = [0.0, 2.0, 1.0], [0.0, 1.0, 2.0], [None] * 3
    for t in (0, 1):
        for sel in itertools.permutations(range(len(al)), M):
            for off in range(3):
                find = np.asarray([(i + off) % 3 for i in range(M)])
                parts = [al[i] for i in sel]
                P = pack(parts)
                keep = P.copy()
                dist = []
                for p, ch, out in seam.explore(lambda c: m.sample_smooth(P, None, np.arange(M), None if last else fut, find, ut, yt, tt, t), normal='pm1', stats=st):
                    out = np.asarray(out)
                    if out.shape[0] != M or not gauss.close(out[:, :lxi], P[:, :lxi]):
                        return r.fail('xi', 'nonlinear states %r' % (out,), kinds=kinds)
                    dist.append((p, out[:, lxi:lxi + lz].reshape(-1)))
                if not np.array_equal(P, keep):
                    return r.fail('mutate', 'sample_smooth changes its particles', kinds=kinds)
                mean, C = gauss.moments(dist)
                wm, W = [], np.zeros((M * lz, M * lz))
                for i in range(M):
                    rf = ref_of(S, parts[i], t)
                    z = rf.z[-1]
                    obs = []
                    if not last:
                        xn, zn = rf.step_vars(ut[t])
                        obs = [(gauss.stack([xn, zn]), np.concatenate(nexts[find[i]]))]
                    a, b = gauss.condition(z, obs)
                    wm.extend(a)
                    W[i * lz:(i + 1) * lz, i * lz:(i + 1) * lz] = b
                r.states += 1
                if not gauss.close(mean, wm, 1e-7) or not gauss.close(C, W, 1e-7):
                    return r.fail('law', 'linear states have mean %r cov %r instead of %r %r' % (mean, C, wm, W), kinds=kinds, t=t, sel=sel, off=off)
    r.add(st)
    r.outcome('smooth %d %d %d' % (lxi, lz, M))


def future_logp(S, part, t, path, us, ys):
    """log p(xi_{t+1..}, y_{t+1..} | particle statistics at t)."""
    rf = ref_of(S, part, t)
    lp = 0.0
    for k, x in enumerate(path):
        lp += rf.advance(x, us[t + k])
        if ys[t + k + 1] is not None:
            lp += rf.measure(ys[t + k + 1])
    return lp


def f_marg(r, lxi, lz, ly, kinds, T, qz0=False):
    """Marginalised smoother: for every path of the alphabet, every missing pattern and every start
    time, the backward weights after sample_smooth has been run backwards along the path."""
    S = mix.Mix(lxi, lz, ly, kinds, qz0=qz0)
    m = S.make('marg')
    al = stats_alphabet(S)
    P = pack(al)
    N = len(al)
    us = [float((2 * t + 1) % 3) for t in range(T)]
    tt = np.arange(T, dtype=float)
    alts = [[S.xi0 + gauss.vec(lxi, 2 * t), S.xi0 - 1.3 * gauss.vec(lxi, 2 * t + 1)] for t in range(T)]
    paths = list(itertools.product(*[range(2)] * T))
    for miss in itertools.product((0, 1), repeat=T):
        ys = np.empty((T,), dtype=object)
        for t in range(T):
            ys[t] = None if miss[t] else gauss.yvec(ly, t, 1).reshape(-1, 1)
        M = len(paths)
        # all paths at once; the linear statistics of the particles are rubbish and must not matter
        fut = []
        perm = list(range(M))
        for t in range(T - 1, -1, -1):
            xis = np.asarray([alts[t][paths[j][t]] for j in perm])
            part = np.hstack([xis, 50.0 + np.arange(M * (lz + lz * lz)).reshape(M, -1)])
            if t < T - 1:
                # backward weights of the particles for every future of the list
                for j in range(M):
                    path = [alts[k][paths[perm[j]][k]] for k in range(t + 1, T)]
                    got = np.asarray(m.logp_xnext_full(P, None, None, fut, np.full(N, j), us, ys, tt, t), dtype=float)
                    ex = np.asarray([future_logp(S, p, t, path, us, ys) for p in al])
                    d = got - ex
                    r.states += N
                    r.executions += 1
                    if got.shape != (N,) or not gauss.close(d, d[0] * np.ones(N), 1e-6):
                        return r.fail('full', 'backward weights %r instead of %r (up to a constant) at t=%d' % (got, ex, t), kinds=kinds, missing=miss, path=paths[perm[j]])
                # one future per particle gives the same numbers
                idx = np.asarray([(3 * i + 1) % M for i in range(N)])
                got = np.asarray(m.logp_xnext_full(P, None, None, fut, idx, us, ys, tt, t), dtype=float)
                for i in range(N):
                    w = np.asarray(m.logp_xnext_full(P, None, None, fut, np.full(N, idx[i]), us, ys, tt, t))[i]
                    if not gauss.close(got[i], w, 1e-8):
                        return r.fail('rows', 'backward weight %r instead of %r with one future per particle' % (got[i], w), kinds=kinds)
            out = m.sample_smooth(part, None, np.arange(M), traj_array(fut_parts(fut)) if fut else None, np.arange(M), us, ys, tt, t)
            fut = list(traj_array([np.array(out, copy=True)])) + list(fut)
            r.transitions += 1
    r.outcome('marg %d %d %d T%d' % (lxi, lz, ly, T))
    r.sample(kinds=kinds, T=T, paths=len(paths))


def fut_parts(fut):
    return [f.pa.part for f in fut]


def f_run(r, kind, lxi, lz, ly, kinds, smoother, T, N, M, missing=(), dev=1):
    """Every backward-weight evaluation the real smoother makes in a whole run is exact for the
    particles and the future it is used for."""
    from pyparticleest.simulator import Simulator
    S = mix.Mix(lxi, lz, ly, kinds)
    st = seam.Stats()
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    ys = [None if t in missing else gauss.yvec(ly, t).reshape(-1, 1) for t in range(T)]

    def body(c):
        m = S.make('marg' if kind == 'marg' else 'sampled')
        log = []
        orig = m.logp_xnext_full

        def full(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            out = orig(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind)
            log.append((np.array(part, copy=True), [np.array(f.pa.part, copy=True) for f in future_trajs], np.array(find, copy=True).ravel(), int(cur_ind), np.array(out, copy=True)))
            return out
        m.logp_xnext_full = full
        sim = Simulator(m, us, [None if y is None else y.copy() for y in ys])
        sim.simulate(N, M, filter='pf', smoother=smoother, smoother_options={'R': 2} if smoother == 'mcmc' else None, res=0.67, meas_first=True)
        return m, log, sim
    for p, ch, (m, log, sim) in seam.explore(body, cells=seam.make_cells((), 3), normal='pm1', stats=st, dev=dev):
        const = {}
        for part, fut, find, t, out in log:
            if len(fut) != T - 1 - t:
                return r.fail('future', '%d future steps at t=%d' % (len(fut), t), choices=ch)
            find = np.broadcast_to(find, (len(part),)) if len(find) == 1 else find
            xi, zl, Pl = m.get_states(part)
            for i in range(len(part)):
                key = (t,) + tuple(tuple(f[find[i]].tolist()) for f in fut)
                p0 = (xi[i].ravel(), zl[i].ravel(), Pl[i])
                if kind == 'marg':
                    ex = future_logp(S, p0, t, [f[find[i], :lxi] for f in fut], us, ys)
                else:
                    xn, zn = ref_of(S, p0, t).step_vars(us[t])
                    ex = gauss.logcond(gauss.stack([xn, zn]), fut[0][find[i], :lxi + lz], [])
                d = out[i] - ex
                r.states += 1
                if key in const and not gauss.close(d, const[key], 1e-6):
                    return r.fail('run', 'backward weight %r, exact %r, other particles differ by %r' % (out[i], ex, const[key]), choices=ch, kinds=kinds, t=t)
                const.setdefault(key, d)
    r.add(st)
    r.outcome('run %s %s' % (kind, smoother))


def tasks():
    out = []
    for lxi in (1, 2):
        for lz in (1, 2):
            for k in (mix.kinds('c'), mix.kinds('p'), mix.kinds('d')):
                for d in (False, True):
                    out.append(('f_initial', dict(lxi=lxi, lz=lz, kinds=k, initdep=d)))
    cfg = mix.configs(THOROUGH)
    dims = ((1, 1), (2, 1), (1, 2), (2, 2))
    for k, kd in enumerate(cfg):
        for j, (lxi, lz) in enumerate(dims):
            if not THOROUGH and (k + j) % 2:
                continue
            qz0 = k % 5 == 4 and kd['Qxiz'] == 'd'
            out.append(('f_sampled', dict(lxi=lxi, lz=lz, kinds=kd, qz0=qz0)))
            if (k + j) % 4 == 0 or THOROUGH:
                out.append(('f_smooth', dict(lxi=lxi, lz=lz, kinds=kd, M=2 if lz == 2 else 3, last=bool(k % 7 == 6))))
            if (k + j) % 4 == 2 or THOROUGH:
                out.append(('f_marg', dict(lxi=lxi, lz=lz, ly=1 + (k // 2) % 2, kinds=kd, T=3, qz0=qz0)))
    for kd in (cfg[0], cfg[1]):
        out.append(('f_marg', dict(lxi=1, lz=2, ly=1, kinds=kd, T=4)))
    for kind, sms in (('sampled', ('full', 'rs', 'rsas', 'mcmc')), ('marg', ('full', 'mcmc'))):
        for sm in sms:
            for miss in ((), (1,), (2,)):
                for kd in (cfg[1], mix.kinds('p', C='d')):
                    out.append(('f_run', dict(kind=kind, lxi=1, lz=2, ly=1, kinds=kd, smoother=sm, T=3, N=2, M=2, missing=miss, dev=1 if not THOROUGH else 2)))
    return out
