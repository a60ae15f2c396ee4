"""C29: the gradient test tabulates the EM objective and its gradient."""
import numpy as np
from lib import seam, gauss, mix, pmix
from lib.env import THOROUGH
from checks import c21

CONFS = ('pure', 'ext')
CONF = 'pure'

U = [1.0, 0.0, 2.0]
TERMS = (('plot_x0', 0), ('plot_xn', 1), ('plot_y', 2))


def grid(k, n=None):
    g = {'g3': [-0.2, 0.1, 0.45], 'g1': [0.3], 'g12': [0.05 * i - 0.3 for i in range(12)], 'down': [0.6, 0.2, -0.1, -0.4],
         'rep': [0.2, 0.2, -0.5]}[k]
    return g


def judge(r, gt, m, exf, th0, pid, vals, analytic, ctx):
    """exf(straj) -> object with terms(theta)."""
    straj = gt.straj
    ex = exf(straj)
    ths = []
    for v in vals:
        th = list(th0)
        th[pid] = v
        ths.append(th)
    # the additive constant of a term may not depend on the parameters: fix it at the first point
    W = np.asarray([ex.terms(th) for th in ths])
    got = {}
    for name, k in TERMS:
        p = getattr(gt, name)
        if not np.array_equal(np.asarray(p.params, dtype=float).ravel(), np.asarray(vals, dtype=float)):
            return r.fail('params', '%s is tabulated over %r instead of %r' % (name, p.params, vals), **ctx)
        v = np.asarray(p.vals, dtype=float).ravel()
        if v.shape != (len(vals),):
            return r.fail('values', '%s: %d values for %d parameters' % (name, v.size, len(vals)), **ctx)
        if not gauss.close(v - v[0], W[:, k] - W[0, k], 1e-6):
            return r.fail('values', '%s changes by %r over the grid, the objective of the simulated trajectories by %r' % (name, v - v[0], W[:, k] - W[0, k]), **ctx)
        got[k] = v
        if not analytic:
            if p.diff is not None:
                return r.fail('gradient', '%s has a gradient though none was asked for' % name, **ctx)
            continue
        d = np.asarray(p.diff, dtype=float).ravel()
        want = np.asarray([c21.dnum(ex.terms, th)[pid, k] for th in ths])
        if d.shape != want.shape or not gauss.close(d, want, 1e-6):
            return r.fail('gradient', '%s: gradient %r, derivative of the objective %r' % (name, d, want), **ctx)
    # the constants themselves: what the model reports for the same trajectories
    for i, th in enumerate(ths):
        m.set_params(np.asarray(th, dtype=float))
        t = c21.lib_terms(m, straj)
        if not gauss.close([got[0][i], got[1][i], got[2][i]], t, 1e-9):
            return r.fail('values', 'tabulated %r at %r, the model reports %r' % ([got[0][i], got[1][i], got[2][i]], th, t), **ctx)
        r.states += 1
        r.executions += 1
    # drawing: the curve is the table, every tangent goes through it with the right slope
    import matplotlib.pyplot as plt
    for name, k in TERMS:
        p = getattr(gt, name)
        p.plot(7)
        ax = plt.figure(7).gca()
        lines = [np.asarray(l.get_xydata(), dtype=float) for l in ax.get_lines()]
        plt.close(7)
        curve = np.column_stack((vals, got[k]))
        if not any(l.shape == curve.shape and np.allclose(l, curve, rtol=0, atol=1e-9 * (1 + np.abs(curve).max())) for l in lines[:1]):
            return r.fail('plot', '%s does not draw the table' % name, **ctx)
        for l in lines[1:]:
            mid = l.mean(axis=0)
            if l[0, 0] == l[-1, 0]:
                continue
            sl = (l[-1, 1] - l[0, 1]) / (l[-1, 0] - l[0, 0])
            ok = analytic and any(abs(mid[0] - x) < 1e-9 and abs(mid[1] - y) < 1e-7 * (1 + abs(y)) and abs(sl - dd) < 1e-6 * (1 + abs(dd))
                                  for x, y, dd in zip(vals, got[k], np.asarray(p.diff).ravel()))
            if not ok:
                return r.fail('plot', '%s draws a segment that is no tangent of the table' % name, **ctx)
    return True


def f_test(r, fam, cfg, pid, gridk, num, nums, analytic=True, T=3, missing=(), th0=(0.1, -0.2), dev=1):
    from pyparticleest.paramest.gradienttest import GradientTest
    st = seam.Stats()
    vals = grid(gridk)
    us = U[:T - 1]
    ly = cfg['ly']
    # the gradient test simulates without a measurement of the initial state
    ys = [None if t in missing or t == 0 else gauss.yvec(ly, t).reshape(-1, 1) for t in range(T)]
    if fam == 'ltv':
        S = c21.PSys(cfg['lz'], ly, cfg['kinds'], cfg['active'], th0)
    else:
        S = pmix.PMix(cfg['lxi'], cfg['lz'], ly, cfg['kinds'], cfg['active'])

    def exf(straj):
        if fam == 'ltv':
            S.p = tuple(th0)
            return c21.ExactLTV(S, us, ys)
        S.set(th0)
        paths = [[np.array(straj.traj[t].pa.part[j, :S.lxi], dtype=float) for t in range(T)] for j in range(nums)]
        return c21.Exact(S, paths, us, ys)

    def body(c):
        if fam == 'ltv':
            S.p = tuple(th0)
            m = S.model()
        else:
            S.set(th0)
            m = pmix.model(S, fam)
        gt = GradientTest(m, us, [None if y is None else y.copy() for y in ys[1:]])
        gt.set_params(np.asarray(th0, dtype=float))
        gt.test(pid, np.asarray(vals) if gridk == 'g3' else list(vals), num=num, nums=nums, analytic_grad=analytic)
        return m, gt
    n = 0
    seen = {}
    for p, ch, (m, gt) in seam.explore(body, cells=seam.make_cells((), 2), normal='pm1', stats=st, dev=dev):
        ctx = dict(fam=fam, cfg=cfg, param_id=pid, choices=ch)
        if len(gt.straj.traj) != T or any(len(s.pa.part) != nums for s in gt.straj.traj):
            return r.fail('simulate', '%d trajectories asked for, %r simulated' % (nums, [len(s.pa.part) for s in gt.straj.traj]), **ctx)
        if any(len(s.pa.part) != num for s in gt.pt.traj):
            return r.fail('simulate', '%d particles asked for, %r used' % (num, [len(s.pa.part) for s in gt.pt.traj]), **ctx)
        key = repr([s.pa.part[:, :1].tolist() for s in gt.straj.traj])
        # some with all trajectories alike, some with different initial states
        x0 = np.asarray(gt.straj.traj[0].pa.part)
        alike = bool(np.all(x0 == x0[:1]))
        if key in seen or sum(1 for _, a in seen.items() if a == alike) > (40 if THOROUGH else 3):
            continue
        seen[key] = alike
        if judge(r, gt, m, exf, th0, pid, vals, analytic, ctx) is not True:
            return
        n += 1
    r.add(st)
    r.outcome('%s %r' % (fam, cfg['active']))
    r.sample(fam=fam, active=cfg['active'], grid=vals, trajectories=n, alike=sorted(seen.values()))


def f_generic(r, pid, gridk, num, nums, analytic=True, T=3, missing=(), th0=(0.3, -0.4, 0.2), bare=False):
    """A model that is nothing but its densities: every outcome of the underlying run; the table must hold exactly
    the terms of the simulated trajectories at their own inputs, measurements and times."""
    from pyparticleest.paramest.gradienttest import GradientTest
    from pyparticleest.paramest.interfaces import ParamEstInterface, ParamEstInterface_GradientSearch
    import pyparticleest.interfaces as pi
    st = seam.Stats()
    vals = grid(gridk)
    us = [1.0, -2.0, 0.5, 1.5][:T - 1]
    ys = [None if t in missing else 0.4 * t - 0.5 for t in range(1, T)]

    def l0(a, t, p):
        return -0.5 * (a - p[0] - 0.7 * p[2] * (t - 1.0)) ** 2

    def l0g(a, t, p):
        e = a - p[0] - 0.7 * p[2] * (t - 1.0)
        return np.asarray([e, 0.0 * a, 0.7 * (t - 1.0) * e])

    def lp(a, b, u, t, p):
        return -0.5 * (b - p[1] * a - 0.3 * u * p[2] - 0.1 * t) ** 2 * (1 + 0.2 * t)

    def lpg(a, b, u, t, p):
        e = (b - p[1] * a - 0.3 * u * p[2] - 0.1 * t) * (1 + 0.2 * t)
        return np.asarray([0.0 * a, e * a, 0.3 * u * e])

    def ly(a, y, t, p):
        return -0.5 * (y - p[2] * a ** 2) ** 2 / (1 + t)

    def lyg(a, y, t, p):
        return np.asarray([0.0 * a, 0.0 * a, (y - p[2] * a ** 2) * a ** 2 / (1 + t)])

    class Mod(pi.ParticleFiltering, pi.FFBSi, ParamEstInterface if bare else ParamEstInterface_GradientSearch):
        def set_params(self, params):
            self.params = np.array(params, dtype=float).ravel()

        def create_initial_estimate(self, N):
            return np.array([[float(seam.pick([0.5, 0.5]))] for _ in range(N)])

        def sample_process_noise(self, particles, u, t):
            return np.array([float(seam.pick([0.5, 0.5])) - 0.3 for _ in range(len(particles))])

        def update(self, particles, u, t, noise):
            particles[:, 0] = 0.5 * particles[:, 0] + 0.2 * u + noise
            return particles

        def measure(self, particles, y, t):
            return ly(particles[:, 0], y, t, self.params)

        def logp_xnext(self, particles, next_part, u, t):
            return lp(particles[:, 0], np.asarray(next_part)[:, 0], u, t, self.params)

        def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            return self.logp_xnext(part, future_trajs[0].pa.part[find], ut[cur_ind], tt[cur_ind])

        def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
            return part

        def eval_logp_x0(self, particles, t):
            return l0(particles[:, 0], t, self.params)

        def eval_logp_x0_val_grad(self, particles, t):
            return l0(particles[:, 0], t, self.params), np.mean(l0g(particles[:, 0], t, self.params), axis=1)

        def eval_logp_xnext_val_grad(self, particles, particles_next, u, t):
            return lp(particles[:, 0], particles_next[:, 0], u, t, self.params), np.sum(lpg(particles[:, 0], particles_next[:, 0], u, t, self.params), axis=1)

        def eval_logp_y_val_grad(self, particles, y, t):
            return ly(particles[:, 0], y, t, self.params), np.sum(lyg(particles[:, 0], y, t, self.params), axis=1)

    def body(c):
        m = Mod()
        gt = GradientTest(m, list(us), list(ys))
        gt.set_params(np.asarray(th0, dtype=float))
        gt.test(pid, np.asarray(vals) if gridk == 'g3' else list(vals), num=num, nums=nums, analytic_grad=analytic)
        return gt
    n = 0
    for p, ch, gt in seam.explore(body, cells=seam.make_cells((), 2), normal='pm1', stats=st, dev=3):
        n += 1
        P = np.asarray([s.pa.part[:, 0] for s in gt.straj.traj], dtype=float)
        if P.shape != (T, nums):
            return r.fail('simulate', '%r trajectories' % (P.shape,), choices=ch)
        tt = np.arange(T, dtype=float)
        yy = [None] + list(ys)
        for k, v in enumerate(vals):
            th = list(th0)
            th[pid] = v
            r.states += 1
            want = (np.mean(l0(P[0], tt[0], th)), sum(np.mean(lp(P[t], P[t + 1], us[t], tt[t], th)) for t in range(T - 1)),
                    sum(np.mean(ly(P[t], yy[t], tt[t], th)) for t in range(T) if yy[t] is not None))
            wg = (np.mean(l0g(P[0], tt[0], th), axis=1), sum(np.mean(lpg(P[t], P[t + 1], us[t], tt[t], th), axis=1) for t in range(T - 1)),
                  sum((np.mean(lyg(P[t], yy[t], tt[t], th), axis=1) for t in range(T) if yy[t] is not None), np.zeros(3)))
            for name, i in TERMS:
                g = getattr(gt, name)
                if not gauss.close(np.ravel(g.vals)[k], want[i], 1e-9):
                    return r.fail('values', '%s holds %r at %r, the simulated trajectories give %r' % (name, np.ravel(g.vals)[k], th, want[i]), choices=ch, paths=P.tolist())
                if not analytic:
                    if g.diff is not None:
                        return r.fail('gradient', '%s has a gradient though none was asked for' % name, choices=ch)
                elif not gauss.close(np.ravel(g.diff)[k], wg[i][pid], 1e-9):
                    return r.fail('gradient', '%s: gradient %r, exact %r' % (name, np.ravel(g.diff)[k], wg[i][pid]), choices=ch, paths=P.tolist())
    r.add(st)
    r.outcome('generic')
    r.sample(generic=True, param=pid, grid=vals, executions=n)


LK = [dict(A='c', f='c', Q='c', C='c', h='c', R='c'), dict(A='t', f='t', Q='t', C='t', h='t', R='t'), dict(A='c', f='t', Q='t', C='c', h='t', R='t')]
LA = [('A',), ('Q', 'R'), ('C', 'h'), ('z0', 'P0'), ('A', 'f', 'Q', 'C', 'h', 'R', 'z0', 'P0')]
MA = [('Az', 'fxi'), ('Qxi', 'Qz', 'Qxiz'), ('C', 'h', 'R'), ('z0', 'Pz0', 'xi0', 'Pxi0'), mix.NAMES + ('z0', 'Pz0', 'xi0', 'Pxi0')]


def tasks():
    out = []
    n = 0
    if CONF == 'pure':
        for pid in (0, 1, 2):
            for k, gk in enumerate(('g3', 'down', 'rep', 'g1')):
                for nums in (1, 2, 3):
                    for bare in (False, True):
                        out.append(('f_generic', dict(pid=pid, gridk=gk, num=1 + (pid + nums) % 2, nums=nums, analytic=not bare, bare=bare, T=2 + (k + nums) % 3 % 2 + 1 if THOROUGH else 2 + (k + nums) % 2,
                                                      missing=((), (1,), (2,))[(k + pid) % 3])))
    for a in LA:
        for kd in LK:
            for pid in (0, 1):
                n += 1
                out.append(('f_test', dict(fam='ltv', cfg=dict(lz=1 + n % 2, ly=1 + (n // 2) % 2, kinds=kd, active=list(a)), pid=pid,
                                           gridk=('g3', 'g12', 'down', 'g1', 'rep')[n % 5], num=1 + n % 2, nums=1 + n % 3, analytic=n % 4 != 0,
                                           missing=[(), (1,), (0,), (2,)][n % 4])))
    for a in MA:
        for base in ('c', 'p', 's'):
            for pid in (0, 1):
                n += 1
                if n % 2 and not THOROUGH:
                    continue
                for cls in ('sampled',) + (('marg',) if THOROUGH else ()):
                    out.append(('f_test', dict(fam=cls, cfg=dict(lxi=1, lz=1 + n % 3 // 2, ly=1, kinds=mix.kinds(base), active=list(a)), pid=pid,
                                               gridk=('g3', 'down', 'g12')[n % 3], num=2 + n % 2, nums=2 if n % 3 else 1 + n // 2 % 2, analytic=n % 5 != 0,
                                               missing=[(), (1,), (0,)][n % 3])))
    if THOROUGH:
        out += [(f, dict(k, dev=2, T=4)) for f, k in out if f == 'f_test' and k['num'] <= 2]
    return out
