"""Family of mixed linear/nonlinear Gaussian models and their exact batch reference.

kinds: dict matrix name -> 'c' constant (constructor), 'p' depends on the nonlinear state, the
input and the time (overridden method, one matrix per particle), 's' time and input dependent but
equal for all particles, 'd' absent (library default).
"""
import numpy as np
from lib import gauss, seam

NAMES = ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'Qxiz', 'C', 'h', 'R')
OPTIONAL = ('fxi', 'fz', 'Qxiz', 'C', 'h')


def kinds(default='c', **kw):
    k = {n: default for n in NAMES}
    if default == 'd':
        k = {n: ('d' if n in OPTIONAL else 'c') for n in NAMES}
    k.update(kw)
    return k


class Mix(object):
    def __init__(self, lxi, lz, ly, kinds, qz0=False, pz0=None, pxi0=True, initdep=False, scale=1.0):
        self.lxi, self.lz, self.ly, self.kinds = lxi, lz, ly, kinds
        self.qz0 = qz0
        self.initdep = initdep
        self.scale = scale
        self.xi0 = gauss.vec(lxi, 4)
        self.z0 = gauss.vec(lz, 5)
        self.Pxi0 = gauss.spd(lxi, 2) if pxi0 else None
        self.pz0 = pz0            # False: known initial linear state (the library's default)
        self.Pz0 = np.zeros((lz, lz)) if pz0 is False else gauss.spd(lz, 1) if pz0 is None else pz0

    # -- matrices
    def val(self, n, xi=None, u=0.0, t=0.0):
        lxi, lz, ly = self.lxi, self.lz, self.ly
        kd = self.kinds[n]
        if kd == 'd':
            return {'fxi': np.zeros((lxi, 1)), 'fz': np.zeros((lz, 1)), 'Qxiz': np.zeros((lxi, lz)),
                    'C': np.zeros((ly, lz)), 'h': np.zeros((ly, 1))}[n]
        k = NAMES.index(n)
        s = 0.0
        if kd in 'ps':
            k += 1 + int(t) % 3 + 2 * (int(abs(u)) % 3)
        if kd == 'p':
            xi = np.asarray(xi, dtype=float).reshape(-1)
            s = np.sin(xi.dot(np.arange(1, lxi + 1)) + 0.3 * k)
        if n == 'Axi':
            return gauss.mat(lxi, lz, k) * (1.0 + 0.5 * s)
        if n == 'Az':
            return gauss.mat(lz, lz, k) + 0.4 * s * np.eye(lz)
        if n == 'fxi':
            f = gauss.vec(lxi, k).reshape(-1, 1) * (1 + s)
            return f + (0.5 * xi.reshape(-1, 1) if kd == 'p' else 0.0)
        if n == 'fz':
            return gauss.vec(lz, k).reshape(-1, 1) * (1 + s)
        if n == 'Qxi':
            return gauss.spd(lxi, k % 6) * (1.5 + 0.5 * s)
        if n == 'Qz':
            return np.zeros((lz, lz)) if self.qz0 else gauss.spd(lz, (k + 1) % 6) * (1.5 + 0.5 * s)
        if n == 'Qxiz':
            return 0.2 * gauss.mat(lxi, lz, k) / max(1.0, np.linalg.norm(gauss.mat(lxi, lz, k))) * (1.0 + 0.3 * s)
        if n == 'C':
            return gauss.mat(ly, lz, k + 40) * (1.0 + 0.4 * s)
        if n == 'h':
            return gauss.vec(ly, k).reshape(-1, 1) + (0.7 * s + (0.3 * xi[0] if kd == 'p' else 0.0))
        if n == 'R':
            return gauss.spd(ly, (k + 2) % 6) * (1.5 + 0.5 * s)
        raise KeyError(n)

    def Q(self, xi, u, t):
        Q = np.zeros((self.lxi + self.lz,) * 2)
        Q[:self.lxi, :self.lxi] = self.val('Qxi', xi, u, t)
        Q[self.lxi:, self.lxi:] = self.val('Qz', xi, u, t)
        Q[:self.lxi, self.lxi:] = self.val('Qxiz', xi, u, t)
        Q[self.lxi:, :self.lxi] = self.val('Qxiz', xi, u, t).T
        return Q

    def init_z(self, xi):
        """Mean and covariance of z_0 given xi_0."""
        if self.initdep:
            s = 1.0 + 0.5 * np.sin(np.sum(xi))
            return self.z0 * s + 0.2, self.Pz0 * s
        return self.z0, self.Pz0

    # -- the library model
    def make(self, cls='sampled', log=None):
        import pyparticleest.models.mlnlg as ml
        base = ml.MixedNLGaussianSampledInitialGaussian if cls == 'sampled' else ml.MixedNLGaussianMarginalizedInitialGaussian
        S = self

        def over(names):
            return any(S.kinds[n] in 'ps' for n in names)

        def per(n, part, u, t):
            if S.kinds[n] not in 'ps':
                return None
            return np.asarray([S.val(n, part[i, :S.lxi], u, t) for i in range(len(part))])

        class M(base):
            def __init__(self):
                kw = {}
                for n in NAMES:
                    if S.kinds[n] == 'c':
                        kw[n] = S.val(n)
                super(M, self).__init__(xi0=S.xi0, z0=S.z0, Pxi0=S.Pxi0, Pz0=None if S.pz0 is False else S.Pz0, **kw)

            if over(('Axi', 'fxi', 'Qxi')):
                def get_nonlin_pred_dynamics(self, particles, u, t):
                    return tuple(per(n, particles, u, t) for n in ('Axi', 'fxi', 'Qxi'))
            if over(('Az', 'fz', 'Qz')):
                def get_lin_pred_dynamics(self, particles, u, t):
                    return tuple(per(n, particles, u, t) for n in ('Az', 'fz', 'Qz'))
            if over(('Qxiz',)):
                def get_cross_covariance(self, particles, u, t):
                    return per('Qxiz', particles, u, t)
            if over(('C', 'h', 'R')):
                def get_meas_dynamics(self, particles, y, t):
                    return (y,) + tuple(per(n, particles, 0.0, t) for n in ('C', 'h', 'R'))
            if S.initdep:
                def get_rb_initial(self, xi0):
                    n = len(xi0)
                    zs = np.asarray([S.init_z(np.asarray(xi0[i]).ravel())[0].reshape(-1, 1) for i in range(n)])
                    Ps = np.asarray([S.init_z(np.asarray(xi0[i]).ravel())[1] for i in range(n)])
                    return zs, Ps

                def create_initial_estimate(self, N):
                    p = super(M, self).create_initial_estimate(N)
                    xi = p[:, :S.lxi].reshape((N, S.lxi, 1)).copy()
                    z, P = self.get_rb_initial(xi)
                    self.set_states(p, xi, z, P)
                    return p

            def measure(self, particles, y, t):
                out = super(M, self).measure(particles, y, t)
                if log is not None:
                    log.append((float(t), np.array(particles[:, :S.lxi], copy=True), np.array(out, copy=True)))
                return out
        return M()

    # -- the reference
    def start(self, xi0):
        r = Ref(self)
        m, P = self.init_z(xi0)
        r.z = [r.sp.new(m, P)]
        r.xi = [np.asarray(xi0, dtype=float).reshape(-1)]
        return r


class Ref(object):
    """One nonlinear trajectory with its linear states as jointly Gaussian variables."""

    def __init__(self, S):
        self.S = S
        self.sp = gauss.Space()
        self.z, self.xi, self.obs = [], [], []

    def clone(self):
        r = Ref(self.S)
        r.sp.used = self.sp.used
        r.z, r.xi, r.obs = list(self.z), list(self.xi), list(self.obs)
        return r

    @property
    def t(self):
        return len(self.z) - 1

    def step_vars(self, u):
        """(xi_{t+1}, z_{t+1}) as random variables."""
        S, t, xi = self.S, self.t, self.xi[-1]
        v = self.sp.new(np.zeros(S.lxi + S.lz), S.Q(xi, u, t))
        xn = self.z[-1].lin(S.val('Axi', xi, u, t)) + S.val('fxi', xi, u, t) + v.part(slice(0, S.lxi))
        zn = self.z[-1].lin(S.val('Az', xi, u, t)) + S.val('fz', xi, u, t) + v.part(slice(S.lxi, None))
        return xn, zn

    def advance(self, xin, u):
        """The next nonlinear state takes the value xin; returns log p(xin | past)."""
        xn, zn = self.step_vars(u)
        lp = gauss.logcond(xn, xin, self.obs)
        self.obs.append((xn, np.asarray(xin, dtype=float).reshape(-1)))
        self.z.append(zn)
        self.xi.append(np.asarray(xin, dtype=float).reshape(-1))
        return lp

    def y_var(self):
        S, t, xi = self.S, self.t, self.xi[-1]
        return self.z[-1].lin(S.val('C', xi, 0.0, t)) + S.val('h', xi, 0.0, t) + self.sp.new(np.zeros(S.ly), S.val('R', xi, 0.0, t))

    def measure(self, y):
        yv = self.y_var()
        lp = gauss.logcond(yv, y, self.obs)
        self.obs.append((yv, np.asarray(y, dtype=float).reshape(-1)))
        return lp

    def state(self, t=-1):
        return gauss.condition(self.z[t], self.obs)

    def lag(self, t):
        n = self.S.lz
        return gauss.condition(gauss.stack([self.z[t], self.z[t + 1]]), self.obs)[1][:n, n:]


def configs(full=False):
    """A covering family of configurations (every matrix in every kind, every absent subset)."""
    out = [kinds('c'), kinds('p'), kinds('d'), kinds('s')]
    for n in NAMES:
        out.append(kinds('c', **{n: 'p'}))
        out.append(kinds('p', **{n: 'c'}))
        out.append(kinds('c', **{n: 's'}))
        if n in OPTIONAL:
            out.append(kinds('c', **{n: 'd'}))
            out.append(kinds('p', **{n: 'd'}))
            out.append(kinds('d', **{n: 'p'}))
            out.append(kinds('d', **{n: 'c'}))
        else:
            out.append(kinds('d', **{n: 'p'}))
    if full:
        import itertools
        for c in itertools.product('cp', repeat=len(NAMES)):
            out.append(dict(zip(NAMES, c)))
    res = []
    for k in out:
        # y = e alone is no measurement model
        if k['C'] == 'd' and k['h'] == 'd':
            k = dict(k, h='c')
        if k not in res:
            res.append(k)
    return res
