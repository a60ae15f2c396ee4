"""C21: the EM objective and its gradient."""
import itertools
import math
import numpy as np
from lib import seam, gauss, mix, pmix
from lib.env import THOROUGH

CONFS = ('pure', 'ext')

THETAS = [(0.0, 0.0), (0.4, -0.3), (-0.5, 0.6), (0.3, 1.1)]


def e_gauss(m, C, Q):
    """E log N(e; 0, Q) for e with mean m and covariance C (up to the 2 pi constant)."""
    s, ld = np.linalg.slogdet(Q)
    return -0.5 * (ld + np.trace(np.linalg.solve(Q, np.outer(m, m) + C)))


class Exact(object):
    """Exact expectations for smoothed trajectories of a mixed model: per trajectory the joint
    smoothed law of (z_t, z_{t+1}) under the simulation parameters; objective at any parameters."""

    def __init__(self, S, paths, us, ys):
        self.S, self.paths, self.us, self.ys = S, paths, us, ys
        self.J = []
        T = len(ys)
        for path in paths:
            rf = S.start(path[0])
            for t in range(T):
                if t:
                    rf.advance(path[t], us[t - 1])
                if ys[t] is not None:
                    rf.measure(ys[t])
            self.J.append([gauss.condition(rf.z[t] if t == T - 1 else gauss.stack([rf.z[t], rf.z[t + 1]]), rf.obs) for t in range(T)])

    def terms(self, theta):
        """(log p(x0), transitions, measurements), averaged over trajectories."""
        S = self.S
        keep = S.p
        S.set(theta)
        lz, T, M = S.lz, len(self.ys), len(self.paths)
        l0 = ln = ly = 0.0
        for path, J in zip(self.paths, self.J):
            mz, Pz = J[0][0][:lz], J[0][1][:lz, :lz]
            zm, zP = S.init_z(path[0])
            l0 += gauss.logpdf(path[0] - S.xi0, S.Pxi0) + e_gauss(mz - zm, Pz, zP)
            for t in range(T):
                m, C = J[t]
                if t < T - 1:
                    A = np.vstack((S.val('Axi', path[t], self.us[t], t), S.val('Az', path[t], self.us[t], t)))
                    f = np.vstack((S.val('fxi', path[t], self.us[t], t), S.val('fz', path[t], self.us[t], t))).ravel()
                    sel = np.hstack((-A, np.vstack((np.zeros((S.lxi, lz)), np.eye(lz)))))
                    mean = sel.dot(m) - f + np.concatenate([path[t + 1], np.zeros(lz)])
                    ln += e_gauss(mean, sel.dot(C).dot(sel.T), S.Q(path[t], self.us[t], t))
                if self.ys[t] is not None:
                    Cm = S.val('C', path[t], 0.0, t)
                    h = S.val('h', path[t], 0.0, t).ravel()
                    ly += e_gauss(np.ravel(self.ys[t]) - h - Cm.dot(m[:lz]), Cm.dot(C[:lz, :lz]).dot(Cm.T), S.val('R', path[t], 0.0, t))
        S.set(keep)
        return np.asarray([l0, ln, ly]) / M


def dnum(fun, theta, h=2e-3):
    """Derivative of a vector valued function, 6th order central differences."""
    out = []
    for j in range(len(theta)):
        e = np.zeros(len(theta))
        e[j] = h
        th = np.asarray(theta, dtype=float)
        out.append((45 * (fun(th + e) - fun(th - e)) - 9 * (fun(th + 2 * e) - fun(th - 2 * e)) + (fun(th + 3 * e) - fun(th - 3 * e))) / (60 * h))
    return np.asarray(out)       # (params, terms)


def lib_terms(m, straj):
    l0 = float(np.mean(m.eval_logp_x0(straj.traj[0].pa.part, straj.t[0])))
    ln = float(m.eval_logp_xnext_fulltraj(straj, straj.u, straj.t))
    ly = float(m.eval_logp_y_fulltraj(straj, straj.y, straj.t))
    return np.asarray([l0, ln, ly])


def lib_grads(m, straj):
    v0, g0 = m.eval_logp_x0_val_grad(straj.traj[0].pa.part, straj.t[0])
    vn, gn = m.eval_logp_xnext_val_grad_fulltraj(straj, straj.u, straj.t)
    vy, gy = m.eval_logp_y_val_grad_fulltraj(straj, straj.y, straj.t)
    return np.asarray([float(np.mean(v0)), float(vn), float(vy)]), np.asarray([np.ravel(g0), np.ravel(gn), np.ravel(gy)]).T


NAMES3 = ('log p(x0)', 'sum of transition terms', 'sum of measurement terms')


def judge(r, m, straj, ex, thetas, ctx, grads=True):
    """Compare value (up to one constant per term), gradient and their consistency on all thetas."""
    const = None
    for th in thetas:
        m.set_params(np.asarray(th))
        got = lib_terms(m, straj)
        want = ex.terms(th)
        r.states += 1
        r.executions += 1
        if const is None:
            const = got - want
        for k in range(3):
            if not gauss.close(got[k] - const[k], want[k], 1e-6):
                return r.fail('value', '%s: %r instead of %r at parameters %r' % (NAMES3[k], got[k] - const[k], want[k], th), **ctx)
        if not grads:
            continue
        val, grad = lib_grads(m, straj)
        if grad.shape != (len(th), 3):
            return r.fail('shape', 'gradient of shape %r' % (grad.T.shape,), **ctx)
        wg = dnum(ex.terms, th)
        for k in range(3):
            if not gauss.close(val[k], got[k], 1e-8):
                return r.fail('val_grad', '%s: the gradient version returns the value %r, the value version %r at %r' % (NAMES3[k], val[k], got[k], th), **ctx)
            if not gauss.close(grad[:, k], wg[:, k], 1e-6):
                return r.fail('gradient', 'gradient of %s: %r, derivative %r at %r' % (NAMES3[k], grad[:, k], wg[:, k], th), **ctx)
        r.transitions += 1
    m.set_params(np.asarray(thetas[0]))
    return True


def f_mix(r, lxi, lz, ly, kinds, active, cls='sampled', smoother='full', T=3, M=2, missing=(), th0=(0.0, 0.0), dev=1):
    from pyparticleest.simulator import Simulator
    S = pmix.PMix(lxi, lz, ly, kinds, active)
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    ys = [None if t in missing else gauss.yvec(ly, t).reshape(-1, 1) for t in range(T)]
    st = seam.Stats()
    seen = set()

    def body(c):
        S.set(th0)
        m = pmix.model(S, cls)
        m.set_params(np.asarray(th0))
        sim = Simulator(m, us, [None if y is None else y.copy() for y in ys])
        sim.simulate(2, M, filter='pf', smoother=smoother, res=0.67, meas_first=True)
        return m, sim.straj
    for p, ch, (m, straj) in seam.explore(body, cells=seam.make_cells((), 2), normal='pm1', stats=st, dev=dev):
        traj = straj.traj
        paths = [[np.array(traj[t].pa.part[j, :lxi], dtype=float) for t in range(T)] for j in range(M)]
        key = repr([[x.tolist() for x in q] for q in paths])
        if key in seen or len(seen) >= (6 if not THOROUGH else 60):
            continue
        seen.add(key)
        S.set(th0)
        ex = Exact(S, paths, us, ys)
        keep = [np.array(s.pa.part, copy=True) for s in traj]
        if judge(r, m, straj, ex, THETAS, dict(kinds=kinds, active=active, cls=cls, missing=missing, choices=ch, th0=th0)) is not True:
            return
        if not all(np.array_equal(a, s.pa.part) for a, s in zip(keep, traj)):
            return r.fail('mutate', 'evaluating the objective changes the trajectories', kinds=kinds)
    r.add(st)
    r.outcome('mix %r' % (sorted(active),))
    r.sample(kinds=kinds, active=active, trajectories=len(seen))


# ---- linear time-varying models

class PSys(object):
    """LTV system with parameters; kinds as in C15."""

    def __init__(self, lz, ly, kinds, active, p=(0.0, 0.0)):
        from checks import c15
        self.s = c15.Sys(lz, ly, kinds)
        self.lz, self.ly, self.kinds, self.active = lz, ly, kinds, active
        self.p = p

    def vg(self, n, t, u=0.0):
        if n == 'z0':
            b = self.s.z0.reshape(-1, 1)
        elif n == 'P0':
            b = self.s.P0
        else:
            b = self.s.get(n, t, u)
        if n not in self.active:
            return b, [np.zeros_like(b)] * 2
        return pmix.bump(b, 'AfQChRz0P0'.index(n), self.p, n in ('Q', 'R', 'P0'))

    def model(self, extra=None, bounds=None):
        from pyparticleest.models.ltv import LTV
        from pyparticleest.paramest.interfaces import ParamEstInterface_GradientSearch
        S = self
        act = set(self.active)
        names = ('A', 'f', 'Q', 'C', 'h', 'R')

        def tv(n, t, u=0.0):
            return S.vg(n, t, u)[0] if S.kinds[n] == 't' or (S.kinds[n] == 'd' and n in act) else None

        def g(n, t, u=0.0):
            return np.asarray(S.vg(n, t, u)[1]) if n in act else None
        bases = (LTV,) + ((ParamEstInterface_GradientSearch,) if extra is None else tuple(extra))

        class M(*bases):
            def __init__(self):
                LTV.__init__(self, z0=S.vg('z0', 0)[0], P0=S.vg('P0', 0)[0], **{n: (S.vg(n, 0)[0] if S.kinds[n] == 'c' else None) for n in names})
                self.params = np.asarray(S.p).reshape(-1, 1)
                self.param_bounds = bounds

            def set_params(self, params):
                self.params = np.copy(params).reshape(-1, 1)
                S.p = tuple(float(x) for x in np.ravel(params))
                kw = {n: S.vg(n, 0)[0] for n in names if S.kinds[n] == 'c' and n in act}
                if kw:
                    self.kf.set_dynamics(**{{'f': 'f_k', 'h': 'h_k'}.get(n, n): v for n, v in kw.items()})
                self.z0 = S.vg('z0', 0)[0].copy()
                self.P0 = S.vg('P0', 0)[0].copy()

            def get_pred_dynamics(self, u, t):
                return (tv('A', t, u), tv('f', t, u), tv('Q', t, u))

            def get_meas_dynamics(self, y, t):
                return (y, tv('C', t), tv('h', t), tv('R', t))

            def get_pred_dynamics_grad(self, u, t):
                return (g('A', t, u), g('f', t, u), g('Q', t, u))

            def get_meas_dynamics_grad(self, y, t):
                return (g('C', t), g('h', t), g('R', t))

            if act & {'z0', 'P0'}:
                def get_initial_grad(self):
                    return (g('z0', 0), g('P0', 0))
        return M()


class ExactLTV(object):
    def __init__(self, S, us, ys):
        self.S, self.us, self.ys = S, us, ys
        sp = gauss.Space()
        T = len(ys)
        z = [sp.new(S.vg('z0', 0)[0], S.vg('P0', 0)[0])]
        for t in range(T - 1):
            z.append(z[t].lin(S.vg('A', t, us[t])[0]) + S.vg('f', t, us[t])[0] + sp.new(np.zeros(S.lz), S.vg('Q', t, us[t])[0]))
        obs = []
        for t in range(T):
            if ys[t] is not None:
                obs.append((z[t].lin(S.vg('C', t)[0]) + S.vg('h', t)[0] + sp.new(np.zeros(S.ly), S.vg('R', t)[0]), np.ravel(ys[t])))
        self.J = [gauss.condition(z[t] if t == T - 1 else gauss.stack([z[t], z[t + 1]]), obs) for t in range(T)]

    def terms(self, theta):
        S = self.S
        keep = S.p
        S.p = tuple(np.ravel(theta))
        lz, T = S.lz, len(self.ys)
        m, C = self.J[0]
        l0 = e_gauss(m[:lz] - S.vg('z0', 0)[0].ravel(), C[:lz, :lz], S.vg('P0', 0)[0])
        ln = ly = 0.0
        for t in range(T):
            m, C = self.J[t]
            if t < T - 1:
                sel = np.hstack((-S.vg('A', t, self.us[t])[0], np.eye(lz)))
                ln += e_gauss(sel.dot(m) - S.vg('f', t, self.us[t])[0].ravel(), sel.dot(C).dot(sel.T), S.vg('Q', t, self.us[t])[0])
            if self.ys[t] is not None:
                Cm = S.vg('C', t)[0]
                ly += e_gauss(np.ravel(self.ys[t]) - S.vg('h', t)[0].ravel() - Cm.dot(m[:lz]), Cm.dot(C[:lz, :lz]).dot(Cm.T), S.vg('R', t)[0])
        S.p = keep
        return np.asarray([l0, ln, ly])


def f_ltv(r, lz, ly, kinds, active, T, N, M, missing=(), th0=(0.0, 0.0), smoother='full'):
    from pyparticleest.simulator import Simulator
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    ys = [None if t in missing else gauss.yvec(ly, t).reshape(-1, 1) for t in range(T)]
    S = PSys(lz, ly, kinds, active, th0)
    st = seam.Stats()
    for p, ch, (m, straj) in seam.explore(lambda c: run_ltv(S, us, ys, N, M, th0, smoother), cells=seam.make_cells((), 2), stats=st, dev=1):
        S.p = th0
        ex = ExactLTV(S, us, ys)
        if judge(r, m, straj, ex, THETAS, dict(kinds=kinds, active=active, missing=missing, choices=ch, th0=th0)) is not True:
            return
    r.add(st)
    r.outcome('ltv %r' % (sorted(active),))


def run_ltv(S, us, ys, N, M, th0, smoother):
    from pyparticleest.simulator import Simulator
    S.p = th0
    m = S.model()
    m.set_params(np.asarray(th0))
    sim = Simulator(m, us, [None if y is None else y.copy() for y in ys])
    sim.simulate(N, M, filter='pf', smoother=smoother, meas_first=True)
    return m, sim.straj


# ---- models that supply their own densities (defaults of the interfaces)

def f_generic(r, T, M, what, missing=()):
    """eval_*_fulltraj of the two interfaces for a model with arbitrary densities: alignment,
    averaging and missing measurements, on every trajectory array of the alphabet."""
    from pyparticleest.paramest.interfaces import ParamEstInterface, ParamEstInterface_GradientSearch
    from checks.c17 import Fake

    def lp(a, b, u, t, p):
        return -0.5 * (b - p[0] * a - p[1] * u - 0.1 * t) ** 2 * (1 + 0.2 * t)

    def lpg(a, b, u, t, p):
        e = (b - p[0] * a - p[1] * u - 0.1 * t) * (1 + 0.2 * t)
        return np.asarray([e * a, e * u])

    def ly(a, y, t, p):
        return -0.5 * (y - p[1] * a ** 2) ** 2 / (1 + t)

    def lyg(a, y, t, p):
        return np.asarray([0.0 * a, (y - p[1] * a ** 2) * a ** 2 / (1 + t)])

    base = ParamEstInterface_GradientSearch if what == 'grad' else ParamEstInterface

    class Mod(base):
        params = np.asarray([0.3, 0.7])

        def set_params(self, params):
            self.params = np.asarray(params, dtype=float)

        def logp_xnext(self, particles, next_part, u, t):
            return lp(particles[:, 0], next_part[:, 0], u, t, self.params)

        def measure(self, particles, y, t):
            return ly(particles[:, 0], y, t, self.params)

        def eval_logp_x0(self, particles, t):
            return -0.5 * (particles[:, 0] - self.params[0]) ** 2

        def eval_logp_x0_val_grad(self, particles, t):
            e = particles[:, 0] - self.params[0]
            return np.mean(-0.5 * e ** 2), np.asarray([np.mean(e), 0.0])

        def eval_logp_xnext_val_grad(self, particles, particles_next, u, t):
            return lp(particles[:, 0], particles_next[:, 0], u, t, self.params), np.sum(lpg(particles[:, 0], particles_next[:, 0], u, t, self.params), axis=1)

        def eval_logp_y_val_grad(self, particles, y, t):
            return ly(particles[:, 0], y, t, self.params), np.sum(lyg(particles[:, 0], y, t, self.params), axis=1)

    class ST(Fake):
        def get_smoothed_estimates(self):
            return np.asarray([s.pa.part for s in self.traj])
    us = [1.0, -2.0, 0.5, 3.0][:T - 1]
    ys = [None if t in missing else 0.4 * t - 0.4 for t in range(T)]
    alts = (-1.0, 0.5, 2.0)
    rows = list(itertools.product(alts, repeat=T))
    for k in range(len(rows)):
        paths = [[np.asarray([x]) for x in rows[(k + 5 * j) % len(rows)]] for j in range(M)]
        straj = ST(paths, us, ys)
        straj.t = 2.0 + 0.5 * np.arange(T)
        m = Mod()
        for th in THETAS:
            m.set_params(th)
            got = lib_terms(m, straj)
            P = np.asarray([[float(x[0]) for x in q] for q in paths])
            want = np.asarray([np.mean(-0.5 * (P[:, 0] - th[0]) ** 2),
                               sum(np.mean(lp(P[:, t], P[:, t + 1], us[t], straj.t[t], th)) for t in range(T - 1)),
                               sum(np.mean(ly(P[:, t], ys[t], straj.t[t], th)) for t in range(T) if ys[t] is not None)])
            r.states += 1
            r.executions += 1
            r.transitions += 2 * T
            if not gauss.close(got, want):
                return r.fail('generic', 'terms %r instead of %r' % (got, want), paths=P.tolist(), missing=missing, theta=th)
            if what == 'grad':
                v, g = lib_grads(m, straj)
                wg = np.asarray([[np.mean(P[:, 0] - th[0]), 0.0],
                                 sum(np.mean(lpg(P[:, t], P[:, t + 1], us[t], straj.t[t], th), axis=1) for t in range(T - 1)),
                                 sum((np.asarray([0.0, np.mean(lyg(P[:, t], ys[t], straj.t[t], th)[1])]) for t in range(T) if ys[t] is not None), np.zeros(2))]).T
                if not gauss.close(v, want) or not gauss.close(g, wg):
                    return r.fail('generic-grad', 'values %r gradients %r instead of %r %r' % (v, g, want, wg), paths=P.tolist(), missing=missing, theta=th)
    r.outcome('generic ' + what)


def f_nlg(r, d, missing=(), T=3, M=2):
    """Nonlinear Gaussian models through a real run: objective at other parameters."""
    from pyparticleest.models.nlg import NonlinearGaussianInitialGaussian
    from pyparticleest.paramest.interfaces import ParamEstInterface
    from pyparticleest.simulator import Simulator

    class Mod(NonlinearGaussianInitialGaussian, ParamEstInterface):
        params = np.zeros(2)

        def set_params(self, params):
            self.params = np.asarray(params, dtype=float).ravel()
            self.set_Q(self.q())
            self.set_R(self.rr(self.params))

        def q(self, p=None):
            p = self.params if p is None else p
            return gauss.spd(d, 1) * math.exp(0.3 * p[0])

        def rr(self, p):
            return np.asarray([[math.exp(p[1])]])

        def ff(self, x, u, t, p):
            return 0.6 * x + p[0] * np.sin(x) + u + 0.1 * t

        def gg(self, x, t, p):
            return x[:, :1] * (1 + p[1]) + 0.2 * t

        def calc_f(self, particles, u, t):
            return self.ff(particles, u, t, self.params)

        def calc_g(self, particles, t):
            return self.gg(particles, t, self.params)
    us = [1.0, -1.0, 0.5][:T - 1]
    ys = [None if t in missing else np.asarray([0.7 * t - 0.7]) for t in range(T)]
    st = seam.Stats()

    def body(c):
        m = Mod(x0=np.zeros(d), Px0=gauss.spd(d, 0), lxi=d, Q=np.eye(d), R=np.eye(1))
        m.set_params((0.1, 0.1))
        sim = Simulator(m, us, list(ys))
        sim.simulate(2, M, filter='pf', smoother='full', meas_first=True)
        return m, sim.straj
    for p, ch, (m, straj) in seam.explore(body, cells=seam.make_cells((), 2), stats=st, dev=1):
        X = np.asarray([s.pa.part for s in straj.traj])
        for th in THETAS:
            m.set_params(th)
            got = lib_terms(m, straj)
            want = np.asarray([
                np.mean([gauss.logpdf(X[0, j], gauss.spd(d, 0)) for j in range(M)]),
                sum(np.mean([gauss.logpdf(X[t + 1, j] - m.ff(X[t, j], us[t], t, th), m.q(th)) for j in range(M)]) for t in range(T - 1)),
                sum(np.mean([gauss.logpdf(ys[t] - m.gg(X[t, j:j + 1], t, th)[0], m.rr(th)) for j in range(M)]) for t in range(T) if ys[t] is not None)])
            r.states += 1
            if not gauss.close(got, want, 1e-7):
                return r.fail('nlg', 'terms %r instead of %r' % (got, want), choices=ch, theta=th, missing=missing)
    r.add(st)
    r.outcome('nlg')


ACT = [('Az',), ('Axi',), ('fz',), ('fxi',), ('Qz',), ('Qxi',), ('Qxiz',), ('C',), ('h',), ('R',), ('z0',), ('Pz0',), ('xi0',), ('Pxi0',),
       ('Axi', 'Az'), ('Az', 'fxi'), ('fz', 'Qz'), ('Qxi', 'Qz', 'Qxiz'), ('Az', 'Qxi', 'fz'), ('C', 'h'), ('C', 'R'), ('h', 'R'), ('C', 'h', 'R'),
       ('z0', 'Pz0'), ('xi0', 'Pxi0', 'z0'), ('Az', 'C'), ('fz', 'R', 'z0'), mix.NAMES, mix.NAMES + ('z0', 'Pz0', 'xi0', 'Pxi0'), ()]
ACTL = [('A',), ('f',), ('Q',), ('C',), ('h',), ('R',), ('z0', 'P0'), ('z0',), ('P0',), ('A', 'f'), ('A', 'Q'), ('C', 'h'), ('C', 'R'), ('A', 'C'),
        ('A', 'f', 'Q', 'C', 'h', 'R', 'z0', 'P0'), ()]


def tasks():
    out = []
    n = 0
    misses = [(), (0,), (1,), (2,), (0, 1, 2)]
    for a in ACT:
        for base in ('c', 'p', 's'):
            for lxi, lz, ly in ((1, 1, 1), (2, 2, 1), (1, 2, 2), (2, 1, 1)):
                n += 1
                if (n + n // 4) % 4 and not THOROUGH:
                    continue
                k = len(out)
                kd = mix.kinds(base)
                if k % 4 == 1:
                    for o in ('Qxiz', 'h', 'fxi', 'fz'):
                        if o not in a:
                            kd[o] = 'd'
                out.append(('f_mix', dict(lxi=lxi, lz=lz, ly=ly, kinds=kd, active=list(a), cls='marg' if k % 4 == 0 else 'sampled', smoother='ancestor' if k % 7 == 0 else 'full',
                                          T=3, M=2, missing=misses[k % 5], th0=[(0.0, 0.0), (0.4, -0.3)][k % 2])))
    out.append(('f_mix', dict(lxi=1, lz=1, ly=1, kinds=mix.kinds('c', C='d'), active=['h', 'Az'])))
    out.append(('f_mix', dict(lxi=1, lz=2, ly=2, kinds=mix.kinds('p', C='d'), active=['h', 'R'])))
    n = 0
    kl = [dict(A=a, f=f, Q=q, C=c, h=h, R=rr) for a, f, q, c, h, rr in (('c',) * 6, ('t',) * 6, ('c', 'd', 'c', 'c', 'd', 'c'), ('t', 'c', 'c', 't', 'c', 'c'), ('c', 't', 't', 'c', 't', 't'))]
    for a in ACTL:
        for kd in kl:
            for lz, ly in ((1, 1), (2, 1), (2, 2)):
                n += 1
                if (n % 2 and not THOROUGH) or any(kd.get(x) == 'd' for x in a):
                    continue
                out.append(('f_ltv', dict(lz=lz, ly=ly, kinds=kd, active=list(a), T=3, N=1 + n % 2, M=1 + n % 3, missing=misses[n % 5], th0=[(0.0, 0.0), (0.4, -0.3)][n % 2])))
    for what in ('value', 'grad'):
        for T, M in ((2, 1), (3, 2), (4, 3)):
            for k in range(3):
                for miss in itertools.combinations(range(T), k):
                    out.append(('f_generic', dict(T=T, M=M, what=what, missing=miss)))
    for d in (1, 2):
        for miss in ((), (0,), (2,)):
            out.append(('f_nlg', dict(d=d, missing=miss)))
    return out
