"""C14: the nonlinear Gaussian model class implements its stated densities and samplers."""
import itertools
import numpy as np
from lib import seam, gauss
from lib.env import THOROUGH

CONFS = ('pure', 'ext')

VALS = (-1.0, 0.5, 2.0) if not THOROUGH else (-2.0, -1.0, 0.0, 0.5, 2.0)


def ff(x, u, t):
    """state transition mean (rows of x)"""
    d = x.shape[1]
    return x.dot(gauss.mat(d, d, 3).T) + 0.2 * np.sin(x) + (0.0 if u is None else float(u)) * gauss.vec(d, 1) + t * gauss.vec(d, 2)


def gg(x, t, ly):
    d = x.shape[1]
    return x.dot(gauss.mat(ly, d, 5).T) + 0.1 * x[:, :1] ** 2 + t * gauss.vec(ly, 4)


def Qof(kind, d, x, u, t, i):
    """kind: const, time, part"""
    k = 0
    if kind == 'time':
        k = int(t) + 1
    if kind == 'part':
        k = int(abs(np.sum(x[i])) * 2) % 5 + (int(t) % 2)
    if kind == 'time' and u is not None:
        k += int(u) % 2
    return gauss.spd(d, k)


def make(d, ly, fk, gk, Qk, Rk, x0=None, Px0=None, lxi=None, setter=False):
    from pyparticleest.models.nlg import NonlinearGaussianInitialGaussian as B

    class M(B):
        def __init__(self):
            kw = dict(Q=gauss.spd(d, 0) if Qk in ('const',) else None,
                      R=gauss.spd(ly, 1) if Rk in ('const',) else None)
            if fk == 'const':
                kw['f'] = gauss.vec(d, 6)
            if gk == 'const':
                kw['g'] = gauss.vec(ly, 7)
            if setter:
                kw['Q'] = None if Qk != 'const' else 7.0 * np.eye(d)
                kw['R'] = None if Rk != 'const' else 5.0 * np.eye(ly)
            super(M, self).__init__(x0=x0, Px0=Px0, lxi=lxi, **kw)
            if setter:
                if Qk == 'const':
                    kw['Q'][:] = gauss.spd(d, 0)     # the user's own array, changed in place
                    self.set_Q(kw['Q'])
                    kw['Q'][:] = np.eye(d)
                    self.set_Q(gauss.spd(d, 0))
                    self.set_Q(kw['Q'])
                    kw['Q'][:] = gauss.spd(d, 0)
                    self.set_Q(kw['Q'])
                if Rk == 'const':
                    kw['R'][:] = gauss.spd(ly, 1)
                    self.set_R(kw['R'])

        if fk != 'const':
            def calc_f(self, particles, u, t):
                return ff(particles, u, t)
        if gk != 'const':
            def calc_g(self, particles, t):
                g = gg(particles, t, ly)
                return g if gk == 'fun' else g.reshape((len(particles), ly, 1))
        if Qk != 'const':
            def calc_Q(self, particles, u, t):
                return np.asarray([Qof(Qk, d, particles, u, t, i) for i in range(len(particles))])
        if Rk != 'const':
            def calc_R(self, particles, t):
                return np.asarray([Rof(Rk, ly, particles, t, i) for i in range(len(particles))])
    return M()


def Rof(kind, ly, x, t, i):
    if kind == 'const':
        return gauss.spd(ly, 1)
    return Qof(kind, ly, x, None, t + 1, i)


def fmean(fk, x, u, t):
    return ff(x, u, t) if fk != 'const' else np.repeat(gauss.vec(x.shape[1], 6)[None], len(x), 0)


def gmean(gk, x, t, ly):
    return gg(x, t, ly) if gk != 'const' else np.repeat(gauss.vec(ly, 7)[None], len(x), 0)


def vals(v, N):
    v = np.asarray(v, dtype=float)
    if v.size != N:
        return None
    return v.reshape(-1)


def f_density(r, d, ly, fk, gk, Qk, Rk, setter=False):
    m = make(d, ly, fk, gk, Qk, Rk, lxi=d, setter=setter)
    pts = gauss.grid(d, VALS)
    ypts = gauss.grid(ly, (-1.0, 0.0))
    if d == 3:
        pts = pts[::2]
    for N in (1, 2, 3):
        for k in range(0, len(pts)):
            x = np.asarray([pts[(k + 5 * i) % len(pts)] for i in range(N)])
            for t, u in ((0.0, 1.0), (3.0, -2.0)):
                ctx = dict(particles=x.tolist(), t=t, u=u)
                # transition
                mu = fmean(fk, x, u, t)
                Q = [Qof(Qk, d, x, u, t, i) for i in range(N)]
                for j in range(0, len(pts), 2 if d < 3 else 5):
                    xn = np.asarray([pts[(j + i) % len(pts)] for i in range(N)]) + 0.25
                    x0c, xnc = x.copy(), xn.copy()
                    got = vals(m.logp_xnext(x0c, xnc, u, t), N)
                    want = [gauss.logpdf(xn[i] - mu[i], Q[i]) for i in range(N)]
                    r.states += 1
                    r.executions += 1
                    if got is None or not gauss.close(got, want):
                        return r.fail('xnext', 'transition log density %r instead of %r' % (got, want), next=xn.tolist(), **ctx)
                    if not (np.array_equal(x, x0c) and np.array_equal(xn, xnc)):
                        return r.fail('mutate', 'logp_xnext changes its arguments', **ctx)
                # maximum
                got = np.max(np.asarray(m.logp_xnext_max(x.copy(), u, t)))
                want = max(gauss.logpdf(np.zeros(d), q) for q in Q)
                if not gauss.close(got, want):
                    return r.fail('xnext_max', 'transition maximum %r, largest density %r' % (got, want), **ctx)
                # measurement
                gm = gmean(gk, x, t, ly)
                for yv in ypts:
                    shapes = [yv, yv.reshape(-1, 1)] if ly > 1 else [yv, yv.reshape(1, 1), float(yv[0]), [float(yv[0])]]
                    for y in shapes:
                        xc = x.copy()
                        got = vals(m.measure(xc, y, t), N)
                        want = [gauss.logpdf(yv - gm[i], Rof(Rk, ly, x, t, i)) for i in range(N)]
                        r.states += 1
                        r.executions += 1
                        if got is None or not gauss.close(got, want):
                            return r.fail('measure', 'measurement log density %r instead of %r' % (got, want), y=yv.tolist(), **ctx)
                        if not np.array_equal(x, xc):
                            return r.fail('mutate', 'measure changes the particles', **ctx)
                    # first stage weights: measurement density at the predicted mean, next time
                    xc = x.copy()
                    got = vals(m.eval_1st_stage_weights(xc, u, yv, t), N)
                    g1 = gmean(gk, mu, t + 1, ly)
                    want = [gauss.logpdf(yv - g1[i], Rof(Rk, ly, mu, t + 1, i)) for i in range(N)]
                    if got is None or not gauss.close(got, want):
                        return r.fail('first', 'first stage weights %r instead of %r' % (got, want), y=yv.tolist(), **ctx)
                    if not np.array_equal(x, xc):
                        return r.fail('mutate', 'eval_1st_stage_weights changes the particles', **ctx)
                # propagation with a given noise
                nz = np.asarray([gauss.vec(d, i + k) for i in range(N)])
                xc = x.copy()
                out = np.asarray(m.update(xc, u, t, nz))
                r.transitions += 1
                if not gauss.close(out, mu + nz) or not gauss.close(xc, mu + nz):
                    return r.fail('update', 'propagated particles %r instead of %r' % (out.tolist(), (mu + nz).tolist()), **ctx)
    r.outcome('%d %d' % (d, ly))
    r.sample(d=d, ly=ly, Q=Qk, R=Rk, states=r.states)


def mom(r, st, body, N, d, normal):
    """Exact mean and covariance of all N*d numbers over every value of the discretised noise."""
    dist = []
    for p, ch, out in seam.explore(body, normal=normal, stats=st):
        out = np.asarray(out, dtype=float)
        if out.shape != (N, d):
            r.fail('shape', 'shape %r instead of %r' % (out.shape, (N, d)), choices=ch)
            return None, None
        dist.append((p, out.reshape(-1)))
        r.states += 1
    return gauss.moments(dist)


def f_sample(r, d, N, Qk, what):
    """Means and covariances of samples: exact over all noise values."""
    st = seam.Stats()
    normal = 'gh3' if N * d <= (4 if not THOROUGH else 6) else 'pm1'
    pts = gauss.grid(d, (-1.0, 2.0))
    for k in range(min(3, len(pts))):
        x = np.asarray([pts[(k + i) % len(pts)] for i in range(N)])
        for t, u in ((0.0, 1.0), (1.0, 0.0)):
            m = make(d, 1, 'fun', 'fun', Qk, 'const', lxi=d)
            Q = [Qof(Qk, d, x, u, t, i) for i in range(N)]
            if what == 'noise':
                mean, C = mom(r, st, lambda c: m.sample_process_noise(x.copy(), u, t), N, d, normal)
                want = np.zeros(N * d)
            else:
                # default proposal of the Metropolis-Hastings smoothers: propagate the ancestor
                mean, C = mom(r, st, lambda c: propose(m, x, u, t, N)[0], N, d, normal)
                want = ff(x, u, t).reshape(-1)
            if mean is None:
                return
            W = np.zeros((N * d, N * d))
            for i in range(N):
                W[i * d:i * d + d, i * d:i * d + d] = Q[i]
            if not gauss.close(mean, want) or not gauss.close(C, W):
                return r.fail(what, '%s: mean %r covariance %r instead of %r %r' % (what, mean.tolist(), C.tolist(), want.tolist(), W.tolist()), particles=x.tolist(), t=t, u=u)
    r.add(st)
    r.outcome(what)


def propose(m, x, u, t, N):
    class PA(object):
        part = x[::-1].copy()

    class Step(object):
        pa = PA()
    anc = np.arange(N)[::-1]
    cur = int(t) + 1
    ut = [99.0] * (cur + 2)
    tt = [float(k) for k in range(cur + 2)]
    ut[cur - 1] = u
    out = m.propose_smooth([None] * (cur - 1) + [Step()], anc, None, None, [None] * (cur + 2), ut, tt, cur)
    xn = np.asarray(out)
    lp = m.logp_proposal(xn, [None] * (cur - 1) + [Step()], anc, None, None, [None] * (cur + 2), ut, tt, cur)
    return xn, lp


def f_initial(r, d, N, kind):
    st = seam.Stats()
    x0 = None if kind in ('P', 'l', 'lP') else gauss.vec(d, 3)
    P0 = None if kind in ('x', 'l', 'xl') else gauss.spd(d, 2)
    lxi = d if 'l' in kind else None
    for shape in (0, 1):
        if x0 is None and shape:
            continue
        m = make(d, 1, 'fun', 'fun', 'const', 'const', x0=x0 if not shape else x0.reshape(-1, 1), Px0=P0, lxi=lxi)
        mean, C = mom(r, st, lambda c: m.create_initial_estimate(N), N, d, 'gh3' if N * d <= 4 else 'pm1')
        if mean is None:
            return
        mu = np.zeros(d) if x0 is None else x0
        W = np.kron(np.eye(N), np.zeros((d, d)) if P0 is None else P0)
        if not gauss.close(mean, np.tile(mu, N)) or not gauss.close(C, W):
            return r.fail('initial', 'mean %r covariance %r instead of %r %r' % (mean.tolist(), C.tolist(), mu.tolist(), W.tolist()))
        # density
        for a in gauss.grid(d, (-1.0, 0.0, 1.5)):
            x = np.asarray([mu + a * (1.0 + i) for i in range(N)])
            got = vals(m.eval_logp_x0(x.copy(), 0.0), N)
            r.states += 1
            if P0 is None:
                want = [0.0 if np.array_equal(x[i], mu) else -np.inf for i in range(N)]
            else:
                want = [gauss.logpdf(x[i] - mu, P0) for i in range(N)]
            if got is None or not gauss.close(got, want):
                return r.fail('logp_x0', 'log p(x0) %r instead of %r' % (got, want), x=x.tolist())
        # proposal without history: the initial distribution
        out = []
        with seam.active(seam.Controller()):
            out = np.asarray(m.propose_smooth(None, None, None, np.zeros(N, dtype=int), [None], [None], [0.0], 0))
            lp = vals(m.logp_proposal(out, None, None, None, np.zeros(N, dtype=int), [None], [None], [0.0], 0), N)
        want = [0.0 if P0 is None else gauss.logpdf(o - mu, P0) for o in out]
        if out.shape != (N, d) or lp is None or not gauss.close(lp, want):
            return r.fail('logp_proposal', 'initial proposal density %r instead of %r' % (lp, want))
    r.add(st)
    r.outcome(kind)


def f_proposal(r, d, Qk):
    """log density of the default proposal equals the density it samples from."""
    m = make(d, 1, 'fun', 'fun', Qk, 'const', lxi=d)
    pts = gauss.grid(d, VALS)
    for N in (1, 2, 3):
        for k in range(len(pts)):
            x = np.asarray([pts[(k + 2 * i) % len(pts)] for i in range(N)])
            for t, u in ((0.0, 1.0), (1.0, 0.0), (2.0, 3.0)):
                with seam.active(seam.Controller()):
                    xn, lp = propose(m, x, u, t, N)
                want = [gauss.logpdf(xn[i] - ff(x, u, t)[i], Qof(Qk, d, x, u, t, i)) for i in range(N)]
                r.states += 1
                r.executions += 1
                r.transitions += 1
                if vals(lp, N) is None or not gauss.close(lp, want):
                    return r.fail('logp_proposal', 'proposal density %r instead of %r' % (lp, want), particles=x.tolist(), t=t, u=u)
    r.outcome('proposal')


def tasks():
    out = []
    for d, ly in itertools.product((1, 2, 3), (1, 2, 3)):
        for Qk, Rk in itertools.product(('const', 'time', 'part'), repeat=2):
            if max(d, ly) == 3 and not THOROUGH and (Qk == 'time') != (Rk == 'time'):
                continue
            out.append(('f_density', dict(d=d, ly=ly, fk='fun', gk='fun', Qk=Qk, Rk=Rk)))
        out.append(('f_density', dict(d=d, ly=ly, fk='const', gk='const', Qk='const', Rk='const')))
        out.append(('f_density', dict(d=d, ly=ly, fk='fun', gk='fun3', Qk='const', Rk='const', setter=True)))
        out.append(('f_density', dict(d=d, ly=ly, fk='const', gk='const', Qk='part', Rk='part')))
    for d in (1, 2, 3):
        for N in (1, 2, 3):
            if d * N > (6 if not THOROUGH else 9):
                continue
            for Qk in ('const', 'time', 'part'):
                out.append(('f_sample', dict(d=d, N=N, Qk=Qk, what='noise')))
                out.append(('f_sample', dict(d=d, N=N, Qk=Qk, what='propose')))
            for kind in ('x', 'P', 'l', 'xP', 'lP'):
                out.append(('f_initial', dict(d=d, N=N, kind=kind)))
        for Qk in ('const', 'time', 'part'):
            out.append(('f_proposal', dict(d=d, Qk=Qk)))
    return out
