"""Family of hierarchical conditionally linear models and their exact batch reference."""
import math
import numpy as np
from lib import gauss

NAMES = ('Az', 'fz', 'Qz', 'C', 'h', 'R')


class Hier(object):
    """xi: own nonlinear dynamics with Gaussian noise and an extra nonlinear measurement y[0];
    z: linear with matrices of kind 'c' (constant), 'p' (depends on xi, u, t) or 'd' (absent; f only)."""

    def __init__(self, lxi, lz, ly, kinds, initdep=False):
        self.lxi, self.lz, self.ly, self.kinds, self.initdep = lxi, lz, ly, kinds, initdep
        self.xi0 = gauss.vec(lxi, 4)
        self.z0 = gauss.vec(lz, 5)
        self.Pz0 = gauss.spd(lz, 1)

    def val(self, n, xi=None, u=0.0, t=0.0):
        lz, ly = self.lz, self.ly
        kd = self.kinds[n]
        if kd == 'd':
            return {'fz': np.zeros((lz, 1)), 'h': np.zeros((ly, 1))}[n]
        k = NAMES.index(n)
        s = 0.0
        if kd == 'p':
            k += 1 + int(t) % 3 + 2 * (int(abs(u)) % 3)
            s = math.sin(float(np.asarray(xi, dtype=float).reshape(-1).dot(np.arange(1, self.lxi + 1))) + 0.3 * k)
        if n == 'Az':
            return gauss.mat(lz, lz, k) + 0.4 * s * np.eye(lz)
        if n == 'fz':
            return gauss.vec(lz, k).reshape(-1, 1) * (1 + s)
        if n == 'Qz':
            return gauss.spd(lz, k % 6) * (1.5 + 0.5 * s)
        if n == 'C':
            return gauss.mat(ly, lz, k + 40) * (1 + 0.4 * s)
        if n == 'h':
            return gauss.vec(ly, k).reshape(-1, 1) * (1 + s)
        if n == 'R':
            return gauss.spd(ly, (k + 2) % 6) * (1.5 + 0.5 * s)
        raise KeyError(n)

    # nonlinear part
    def xif(self, xi, u, t):
        xi = np.asarray(xi, dtype=float)
        return 0.7 * xi + 0.3 * np.sin(xi) + 0.2 * u + 0.1 * t

    def xiq(self, xi, t):
        return 0.5 + 0.2 * math.sin(float(np.sum(xi)) + t)

    def logp_xi(self, xi, xn, u, t):
        q = self.xiq(xi, t)
        e = np.asarray(xn, dtype=float).ravel() - self.xif(np.asarray(xi).ravel(), u, t)
        return gauss.logpdf(e, q * np.eye(self.lxi))

    def logp_y_xi(self, xi, y, t):
        return gauss.logpdf([float(np.ravel(y)[0]) - np.sum(np.cos(np.asarray(xi))) - 0.1 * t], [[0.8 + 0.1 * t]])

    def init_z(self, xi):
        if self.initdep:
            s = 1.0 + 0.5 * np.sin(np.sum(xi))
            return self.z0 * s + 0.2, self.Pz0 * s
        return self.z0, self.Pz0

    def make(self, rs=True, log=None):
        from pyparticleest.models.hierarchial import HierarchicalBase, HierarchicalRSBase
        S = self

        def per(n, part, u, t):
            if S.kinds[n] != 'p':
                return None
            return np.asarray([S.val(n, part[i, :S.lxi], u, t) for i in range(len(part))])

        base = HierarchicalRSBase if rs else HierarchicalBase

        class M(base):
            def __init__(self):
                kw = {}
                for n, a in (('Az', 'Az'), ('fz', 'fz'), ('Qz', 'Qz'), ('C', 'C'), ('h', 'hz'), ('R', 'R')):
                    if S.kinds[n] == 'c':
                        kw[a] = S.val(n)
                super(M, self).__init__(len_xi=S.lxi, len_z=S.lz, **kw)

            def create_initial_estimate(self, N):
                p = np.zeros((N, S.lxi + S.lz + S.lz ** 2))
                xi = S.xi0 + np.random.normal(size=(N, S.lxi))
                z, P = self.get_rb_initial(xi.reshape((N, S.lxi, 1)))
                self.set_states(p, xi, z, P)
                return p

            def get_rb_initial(self, xi0):
                n = len(xi0)
                return (np.asarray([S.init_z(np.asarray(xi0[i]).ravel())[0].reshape(-1, 1) for i in range(n)]),
                        np.asarray([S.init_z(np.asarray(xi0[i]).ravel())[1] for i in range(n)]))

            def sample_process_noise(self, particles, u, t):
                z = np.random.normal(size=(len(particles), S.lxi))
                return np.asarray([math.sqrt(S.xiq(particles[i, :S.lxi], t)) * z[i] for i in range(len(particles))])

            def calc_xi_next(self, particles, u, t, noise):
                return np.asarray([S.xif(particles[i, :S.lxi], u, t) for i in range(len(particles))]) + noise

            def measure_nonlin(self, particles, y, t):
                return np.asarray([S.logp_y_xi(particles[i, :S.lxi], y, t) for i in range(len(particles))])

            def get_lin_meas_dynamics(self, particles, y, t):
                yl = np.ravel(y)[1:].reshape(-1, 1)
                return (yl,) + tuple(per(n, particles, 0.0, t) for n in ('C', 'h', 'R'))

            if any(self.kinds[n] == 'p' for n in ('Az', 'fz', 'Qz')):
                def get_lin_pred_dynamics(self, particles, u, t):
                    return tuple(per(n, particles, u, t) for n in ('Az', 'fz', 'Qz'))

            def logp_xnext_xi(self, particles, next_xi, u, t):
                return np.asarray([S.logp_xi(particles[i, :S.lxi], next_xi[i], u, t) for i in range(len(particles))])

            def logp_xnext_xi_max(self, particles, u, t):
                return np.asarray([S.logp_xi(particles[i, :S.lxi], S.xif(particles[i, :S.lxi], u, t), u, t) for i in range(len(particles))])

            def eval_logp_x0(self, particles, t):
                return np.asarray([gauss.logpdf(particles[i, :S.lxi] - S.xi0, np.eye(S.lxi)) for i in range(len(particles))])

            def measure(self, particles, y, t):
                out = super(M, self).measure(particles, y, t)
                if log is not None:
                    log.append((float(t), np.array(particles[:, :S.lxi], copy=True), np.array(out, copy=True)))
                return out
        return M()

    def start(self, xi0):
        r = Ref(self)
        m, P = self.init_z(np.asarray(xi0).ravel())
        r.z = [r.sp.new(m, P)]
        r.xi = [np.asarray(xi0, dtype=float).ravel()]
        return r


class Ref(object):
    def __init__(self, S):
        self.S = S
        self.sp = gauss.Space()
        self.z, self.xi, self.obs = [], [], []

    def clone(self):
        r = Ref(self.S)
        r.sp.used = self.sp.used
        r.z, r.xi, r.obs = list(self.z), list(self.xi), list(self.obs)
        return r

    @property
    def t(self):
        return len(self.z) - 1

    def advance(self, xin, u):
        S, t, xi = self.S, self.t, self.xi[-1]
        lp = S.logp_xi(xi, xin, u, t)
        self.z.append(self.z[-1].lin(S.val('Az', xi, u, t)) + S.val('fz', xi, u, t) + self.sp.new(np.zeros(S.lz), S.val('Qz', xi, u, t)))
        self.xi.append(np.asarray(xin, dtype=float).ravel())
        return lp

    def measure(self, y):
        S, t, xi = self.S, self.t, self.xi[-1]
        yv = self.z[-1].lin(S.val('C', xi, 0.0, t)) + S.val('h', xi, 0.0, t) + self.sp.new(np.zeros(S.ly), S.val('R', xi, 0.0, t))
        v = np.ravel(y)[1:]
        lp = gauss.logcond(yv, v, self.obs) + S.logp_y_xi(xi, y, t)
        self.obs.append((yv, v))
        return lp

    def state(self, t=-1):
        return gauss.condition(self.z[t], self.obs)

    def lag(self, t):
        n = self.S.lz
        return gauss.condition(gauss.stack([self.z[t], self.z[t + 1]]), self.obs)[1][:n, n:]


def configs():
    import itertools
    out = []
    for c in itertools.product('cp', 'cpd', 'cp', 'cp', 'cp', 'cp'):
        out.append(dict(zip(NAMES, c)))
    return out
