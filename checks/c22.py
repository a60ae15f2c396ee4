"""C22: maximisation steps."""
import itertools
import math
import numpy as np
from lib import seam, gauss, mix, pmix
from lib.env import THOROUGH
from checks import c21
from checks.c17 import Fake

CONFS = ('pure', 'ext')


def quad(fun, n):
    """Gradient at 0, Hessian of a quadratic function (central differences are exact)."""
    h = 0.5
    f0 = fun(np.zeros(n))
    E = np.eye(n) * h
    g = np.asarray([(fun(E[i]) - fun(-E[i])) / (2 * h) for i in range(n)])
    H = np.empty((n, n))
    for i in range(n):
        for j in range(n):
            H[i, j] = (fun(E[i] + E[j]) - fun(E[i] - E[j]) - fun(E[j] - E[i]) + fun(-E[i] - E[j])) / (4 * h * h)
    return f0, g, H


def box_max(fun, n, bounds):
    """Exact maximiser of a strictly concave quadratic on a box, by enumerating active sets."""
    f0, g, H = quad(fun, n)
    lo = [-np.inf] * n if bounds is None else [(-np.inf if b[0] is None else b[0]) for b in bounds]
    hi = [np.inf] * n if bounds is None else [(np.inf if b[1] is None else b[1]) for b in bounds]
    best = None
    for act in itertools.product((0, -1, 1), repeat=n):
        x = np.zeros(n)
        ok = True
        for i in range(n):
            if act[i] == -1:
                x[i] = lo[i]
            elif act[i] == 1:
                x[i] = hi[i]
        if not np.all(np.isfinite(x)):
            continue
        fr = [i for i in range(n) if act[i] == 0]
        if fr:
            fx = [i for i in range(n) if act[i] != 0]
            rhs = -g[fr] - H[np.ix_(fr, fx)].dot(x[fx])
            x[fr] = np.linalg.solve(H[np.ix_(fr, fr)], rhs)
        for i in range(n):
            if x[i] < lo[i] - 1e-9 or x[i] > hi[i] + 1e-9:
                ok = False
        if not ok:
            continue
        v = f0 + g.dot(x) + 0.5 * x.dot(H).dot(x)
        if best is None or v > best[1]:
            best = (x, v)
    return best


def judge(r, res, obj, th0, bounds, exact, ctx):
    """obj: reference objective; exact: (maximiser, value) or None when not concave."""
    x = np.asarray(res, dtype=float).reshape(-1)
    r.states += 1
    if x.shape != (len(th0),) or not np.all(np.isfinite(x)):
        return r.fail('shape', 'maximisation returned %r' % (res,), **ctx)
    if bounds is not None:
        for k, (lo, hi) in enumerate(bounds):
            if (lo is not None and x[k] < lo - 1e-12) or (hi is not None and x[k] > hi + 1e-12):
                return r.fail('bounds', 'parameter %d = %r outside [%r, %r]' % (k, x[k], lo, hi), **ctx)
    v, v0 = obj(x), obj(np.asarray(th0, dtype=float))
    tol = 1e-6 * max(1.0, abs(v0))
    if v < v0 - tol:
        return r.fail('worse', 'objective %r at the returned parameters %r, %r at the current ones %r' % (v, x, v0, th0), **ctx)
    if exact is not None:
        if v < exact[1] - 1e-4 * max(1.0, abs(exact[1] - v0)):
            return r.fail('maximum', 'objective %r at the returned parameters %r, maximum %r at %r' % (v, x, exact[1], exact[0]), **ctx)
    return True


BOUNDS = {
    1: [None, [(-0.2, 0.3)], [(0.25, None)], [(None, -0.1)], [(-5.0, 5.0)]],
    2: [None, [(-0.2, 0.3), (-0.1, 0.1)], [(0.25, None), (None, None)], [(None, None), (None, -0.1)], [(-5.0, 5.0), (0.2, 0.2)], [(-0.3, 0.0), (0.1, 4.0)]],
    3: [None, [(-0.2, 0.3), (-0.1, 0.1), (None, 0.05)], [(0.25, None), (None, None), (-0.4, -0.1)], [(-9, 9), (-9, 9), (-9, 9)]],
}


def inside(th, bounds):
    if bounds is None:
        return list(th)
    return [min(max(x, -np.inf if lo is None else lo), np.inf if hi is None else hi) for x, (lo, hi) in zip(th, bounds)]


def f_generic(r, n, variant, concave, T=3, M=2, setter=False):
    """Concave quadratic objectives (and non-concave ones) over every trajectory set of the alphabet,
    every start and every box."""
    from pyparticleest.paramest import interfaces as pi
    phi = [lambda a, u, t: a, lambda a, u, t: u + 0.2 * t, lambda a, u, t: np.sin(a) + 0.1 * u][:n]

    def lin(p, a, u, t):
        return sum(p[k] * phi[k](a, u, t) for k in range(n)) if concave else np.sin(sum(p[k] * phi[k](a, u, t) for k in range(n))) * 2.0

    def lp(a, b, u, t, p):
        return -0.5 * (b - lin(p, a, u, t)) ** 2 / (1 + 0.2 * t)

    def ly(a, y, t, p):
        return -0.5 * (y - a * (p[-1] if concave else math.cos(p[-1]))) ** 2 / (1 + 0.15 * t)

    def l0(a, t, p):
        return -0.5 * sum((a - 0.3 * k - 0.2 * t * (-1) ** k - p[k]) ** 2 for k in range(n))

    def num(fun, p):
        return np.asarray([(8 * (fun(p + e) - fun(p - e)) - (fun(p + 2 * e) - fun(p - 2 * e))) / (12 * 1e-3) for e in np.eye(n) * 1e-3])

    bases = {'numeric': (pi.ParamEstBaseNumeric, pi.ParamEstInterface), 'grad': (pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch)}[variant]

    class Mod(*bases):
        def __init__(self, bounds):
            if setter:
                super(Mod, self).__init__()
                self.set_param_bounds(bounds)
            else:
                super(Mod, self).__init__(param_bounds=bounds)
            self.params = np.zeros(n)

        def set_params(self, params):
            self.params = np.array(params, dtype=float).reshape((-1, 1)) if n % 2 == 0 else np.array(params, dtype=float).reshape(-1)

        @property
        def p(self):
            return self.params.reshape(-1)

        def logp_xnext(self, particles, next_part, u, t):
            return lp(particles[:, 0], next_part[:, 0], u, t, self.p)

        def measure(self, particles, y, t):
            return ly(particles[:, 0], y, t, self.p)

        def eval_logp_x0(self, particles, t):
            return l0(particles[:, 0], t, self.p)

        def eval_logp_x0_val_grad(self, particles, t):
            return np.mean(l0(particles[:, 0], t, self.p)), num(lambda q: np.mean(l0(particles[:, 0], t, q)), self.p)

        def eval_logp_xnext_val_grad(self, particles, particles_next, u, t):
            f = lambda q: np.sum(lp(particles[:, 0], particles_next[:, 0], u, t, q))
            return lp(particles[:, 0], particles_next[:, 0], u, t, self.p), num(f, self.p)

        def eval_logp_y_val_grad(self, particles, y, t):
            return ly(particles[:, 0], y, t, self.p), num(lambda q: np.sum(ly(particles[:, 0], y, t, q)), self.p)

    class ST(Fake):
        def get_smoothed_estimates(self):
            return np.asarray([s.pa.part for s in self.traj])
    us = [1.0, -2.0, 0.5][:T - 1]
    rows = list(itertools.product((-1.0, 0.6, 2.0), repeat=T))
    for miss in ((), (1,), tuple(range(T))):
        ys = [None if t in miss else 0.4 * t - 0.4 for t in range(T)]
        for k in range(0, len(rows), 3 if not THOROUGH else 1):
            paths = [[np.asarray([x]) for x in rows[(k + 5 * j) % len(rows)]] for j in range(M)]
            straj = ST(paths, us, ys)
            tt = straj.t = 1.5 - 0.5 * np.arange(T)
            P = np.asarray([[float(x[0]) for x in q] for q in paths])

            def obj(th):
                th = np.asarray(th, dtype=float)
                return float(np.mean(l0(P[:, 0], tt[0], th)) + sum(np.mean(lp(P[:, t], P[:, t + 1], us[t], tt[t], th)) for t in range(T - 1))
                             + sum(np.mean(ly(P[:, t], ys[t], tt[t], th)) for t in range(T) if ys[t] is not None))
            for bounds in BOUNDS[n]:
                exact = box_max(obj, n, bounds) if concave else None
                for start in ([0.0] * n, [0.9 - 0.4 * i for i in range(n)], [-2.0 + i for i in range(n)]):
                    th0 = inside(start, bounds)
                    m = Mod(bounds)
                    m.set_params(th0)
                    keep = [np.array(s.pa.part, copy=True) for s in straj.traj]
                    res = m.maximize(straj)
                    r.executions += 1
                    r.transitions += 1
                    if judge(r, res, obj, th0, bounds, exact, dict(variant=variant, bounds=bounds, start=th0, paths=P.tolist(), missing=miss)) is not True:
                        return
                    if not all(np.array_equal(a, s.pa.part) for a, s in zip(keep, straj.traj)):
                        return r.fail('mutate', 'maximisation changes the trajectories', variant=variant)
    r.outcome('generic %s %d' % (variant, n))
    r.sample(variant=variant, n=n, concave=concave)


def f_model(r, what, variant, active, linear, bounds=None, lxi=1, lz=1, ly=1, base='c', missing=(), T=3, M=2, smoother='full'):
    """Maximisation on the library's model classes after a real run."""
    from pyparticleest.paramest import interfaces as pi
    from pyparticleest.simulator import Simulator
    pmix.LINEAR[0] = linear
    bases = {'numeric': (pi.ParamEstBaseNumeric, pi.ParamEstInterface), 'grad': (pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch)}[variant]
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    ys = [None if t in missing else gauss.yvec(ly, t).reshape(-1, 1) for t in range(T)]
    th0 = tuple(inside((0.2, -0.1), bounds))
    st = seam.Stats()
    if what == 'mix':
        S = pmix.PMix(lxi, lz, ly, mix.kinds(base), active)
    else:
        kd = {n: ('c' if base == 'c' else 't') for n in ('A', 'f', 'Q', 'C', 'h', 'R')}
        S = c21.PSys(lz, ly, kd, active, th0)

    def body(c):
        if what == 'mix':
            S.set(th0)
            m = pmix.model(S, 'sampled', extra=bases, bounds=bounds)
        else:
            S.p = th0
            m = S.model(extra=bases, bounds=bounds)
        m.set_params(np.asarray(th0))
        sim = Simulator(m, us, [None if y is None else y.copy() for y in ys])
        sim.simulate(2, M, filter='pf', smoother=smoother, meas_first=True)
        return m, sim.straj
    n = 0
    for p, ch, (m, straj) in seam.explore(body, cells=seam.make_cells((), 2), normal='pm1', stats=st, dev=1):
        n += 1
        if n > (4 if not THOROUGH else 40):
            continue
        if what == 'mix':
            S.set(th0)
            ex = c21.Exact(S, [[np.array(straj.traj[t].pa.part[j, :lxi], dtype=float) for t in range(T)] for j in range(M)], us, ys)
        else:
            S.p = th0
            ex = c21.ExactLTV(S, us, ys)

        def obj(th):
            return float(np.sum(ex.terms(tuple(th))))
        exact = box_max(obj, 2, bounds) if linear else None
        m.set_params(np.asarray(th0))
        res = m.maximize(straj)
        if judge(r, res, obj, th0, bounds, exact, dict(what=what, variant=variant, active=active, bounds=bounds, missing=missing, choices=ch)) is not True:
            return
    r.add(st)
    r.outcome('%s %s %r' % (what, variant, active))


def tasks():
    out = []
    for n in (1, 2, 3):
        for variant in ('numeric', 'grad'):
            for concave in (True, False):
                out.append(('f_generic', dict(n=n, variant=variant, concave=concave, setter=bool(n % 2))))
                if n == 2:
                    out.append(('f_generic', dict(n=n, variant=variant, concave=concave, T=2, M=3, setter=True)))
    k = 0
    for variant in ('numeric', 'grad'):
        for active, linear in ((('fz',), True), (('fxi', 'h'), True), (('fz', 'fxi', 'h'), True), (('Az',), False), (('Qxi', 'R'), False), (('Az', 'fz', 'Qz', 'R'), False)):
            for bounds in BOUNDS[2][:6:1]:
                k += 1
                if k % 2 and not THOROUGH:
                    continue
                if linear and active in (('fz',),):
                    lz = 2
                else:
                    lz = 1 + k % 2
                out.append(('f_model', dict(what='mix', variant=variant, active=list(active), linear=linear, bounds=bounds, lxi=1 + (k // 2) % 2, lz=lz, ly=1 + k % 2, base='cp'[k % 3 == 0], missing=((), (1,))[k % 2 == 0])))
        for active, linear in ((('f', 'h'), True), (('A',), False), (('Q', 'R'), False), (('A', 'f', 'C', 'R'), False)):
            for bounds in BOUNDS[2]:
                k += 1
                out.append(('f_model', dict(what='ltv', variant=variant, active=list(active), linear=linear, bounds=bounds, lz=2, ly=1 + k % 2, base='ct'[k % 2], missing=((), (1,))[k % 3 == 0])))
    return out
