"""Parameterised versions of the model families with analytic matrix derivatives (two parameters)."""
import numpy as np
from lib import gauss, mix

NP = 2
LINEAR = [False]      # matrices linear in the parameters (set by a check before it builds models)


def bump(base, n, p, psd, scale=1.0):
    """Value and derivatives of a matrix that depends on the parameters."""
    r, c = base.shape
    if psd:
        e = np.exp(0.3 * p[0])
        return e * base + 0.1 * p[1] ** 2 * np.eye(r), [0.3 * e * base, 0.2 * p[1] * np.eye(r)]
    D0, D1 = scale * gauss.mat(r, c, n + 50), scale * gauss.mat(r, c, n + 60)
    if LINEAR[0]:
        return base + p[0] * D0 + p[1] * D1, [D0, D1]
    return base + p[0] * D0 + p[0] * p[1] * D1, [D0 + p[1] * D1, p[0] * D1]


PSD = ('Qxi', 'Qz', 'R', 'Q')


class PMix(mix.Mix):
    """active: names of the matrices that depend on the parameters, plus 'z0','Pz0','xi0','Pxi0'."""

    def __init__(self, lxi, lz, ly, kinds, active, p=(0.0, 0.0), **kw):
        super(PMix, self).__init__(lxi, lz, ly, kinds, **kw)
        self.active = tuple(active)
        self.p = tuple(p)
        self.base0 = dict(z0=self.z0, Pz0=self.Pz0, xi0=self.xi0, Pxi0=self.Pxi0)
        self.set(p)

    def set(self, p):
        self.p = tuple(float(x) for x in np.ravel(p))
        for n in ('z0', 'xi0', 'Pz0', 'Pxi0'):
            setattr(self, n, self.init(n)[0])

    def init(self, n):
        b = self.base0[n]
        if n not in self.active:
            return b, [np.zeros_like(b)] * NP
        if n.startswith('P'):
            return bump(b, 3, self.p, True)
        v, g = bump(b.reshape(-1, 1), 4, self.p, False)
        return v.reshape(-1), g

    def val(self, n, xi=None, u=0.0, t=0.0):
        b = super(PMix, self).val(n, xi, u, t)
        return self.vg(n, b)[0]

    def vg(self, n, b):
        if n not in self.active:
            return b, [np.zeros_like(b)] * NP
        return bump(b, mix.NAMES.index(n), self.p, n in PSD, 0.05 if n == 'Qxiz' else 1.0)

    def grad(self, n, xi, u, t):
        return self.vg(n, super(PMix, self).val(n, xi, u, t))[1]


def model(S, cls='sampled', log=None, extra=None, bounds=None):
    """The library model of a PMix with the parameter estimation interface."""
    from pyparticleest.paramest.interfaces import ParamEstInterface_GradientSearch
    base = type(mix.Mix.make(S, cls, log))
    act = set(S.active)
    bases = (base,) + ((ParamEstInterface_GradientSearch,) if extra is None else tuple(extra))

    def has(*ns):
        return any(n in act for n in ns)

    class P(*bases):
        def __init__(self):
            base.__init__(self)
            self.params = np.asarray(S.p).reshape((-1, 1))
            self.param_bounds = bounds

        def set_params(self, params):
            super(P, self).set_params(params)
            S.set(params)
            kw = {n: S.val(n) for n in mix.NAMES if n in act and S.kinds[n] == 'c'}
            if kw:
                self.set_dynamics(**kw)
            self.z0 = S.z0.reshape(-1, 1).copy()
            self.Pz0 = S.Pz0.copy()
            self.xi0 = S.xi0.reshape(-1, 1).copy()
            self.Pxi0 = S.Pxi0.copy()

        def get_pred_dynamics_grad(self, particles, u, t):
            N = len(particles)
            xs = [particles[i, :S.lxi] for i in range(N)]
            A = f = Q = None
            if has('Axi', 'Az'):
                A = np.asarray([[np.vstack((S.grad('Axi', x, u, t)[j], S.grad('Az', x, u, t)[j])) for j in range(NP)] for x in xs])
            if has('fxi', 'fz'):
                f = np.asarray([[np.vstack((S.grad('fxi', x, u, t)[j], S.grad('fz', x, u, t)[j])) for j in range(NP)] for x in xs])
            if has('Qxi', 'Qz', 'Qxiz'):
                Q = np.asarray([[np.vstack((np.hstack((S.grad('Qxi', x, u, t)[j], S.grad('Qxiz', x, u, t)[j])),
                                            np.hstack((S.grad('Qxiz', x, u, t)[j].T, S.grad('Qz', x, u, t)[j])))) for j in range(NP)] for x in xs])
            return (A, f, Q)

        def get_meas_dynamics_grad(self, particles, y, t):
            N = len(particles)
            xs = [particles[i, :S.lxi] for i in range(N)]
            out = []
            for n in ('C', 'h', 'R'):
                out.append(np.asarray([S.grad(n, x, 0.0, t) for x in xs]) if n in act else None)
            return tuple(out)

        if has('z0', 'Pz0'):
            def get_rb_initial_grad(self, xi0):
                N = len(xi0)
                return (N * (np.asarray(S.init('z0')[1]).reshape(NP, S.lz, 1),), N * (np.asarray(S.init('Pz0')[1]),))
        if has('xi0', 'Pxi0'):
            def get_xi_intitial_grad(self, N):
                return (N * (np.asarray(S.init('xi0')[1]).reshape(NP, S.lxi, 1),), N * (np.asarray(S.init('Pxi0')[1]),))
    return P()
