"""Finite-state user models and their exact reference solutions.

A `Spec` is a time-varying, input-driven hidden Markov model whose tables depend on the time
stamp, the input *value* and the measurement *value*, so that any misalignment of u, y or t in the
code under test changes the law.  A particle is a row [state, lineage]; the lineage number encodes
all states the particle went through (base S, leading 1) and is only written by the model's own
callbacks, so a particle always tells where it really came from.
"""
import itertools
import math
import numpy as np
from lib import seam

# rows of transition tables: numerators over 4
ROWS2 = [(1, 3), (3, 1), (2, 2)]
PN2 = [((1, 3), (3, 1)), ((3, 1), (2, 2)), ((2, 2), (1, 3)), ((3, 1), (1, 3)), ((1, 3), (2, 2))]
PN3 = [((2, 1, 1), (1, 2, 1), (1, 1, 2)), ((1, 2, 1), (1, 1, 2), (2, 1, 1)), ((0, 2, 2), (2, 1, 1), (1, 2, 1))]
G2 = [(1, 3), (3, 1), (1, 1), (9, 1), (1, 2)]
G3 = [(1, 3, 1), (3, 1, 1), (1, 1, 3), (2, 1, 4)]
P02 = [(2, 2), (1, 3), (3, 1)]
P03 = [(2, 1, 1), (1, 2, 1)]


class Spec(object):
    def __init__(self, S=2, T=3, variant=0, y0=True, missing=(), logscale=None, u=None, y=None,
                 flat_likelihood=False, zeros=False, sharp=None):
        self.S = S
        self.T = T
        self.variant = variant
        self.flat = flat_likelihood
        self.zeros = zeros
        # transition probabilities of the unlikely state changes: sharp, 1 - sharp
        self.sharp = sharp
        # distinct data values, some of them zero; the tables use them
        self.u = [(3 * t + variant) % 5 for t in range(T)] if u is None else list(u)
        self.y = [(2 * t + variant) % 7 - 2 for t in range(T)] if y is None else list(y)
        if not y0:
            self.y[0] = None
        for m in missing:
            self.y[m] = None
        self.y0 = y0
        self.logscale = logscale or (lambda t: 0.0)
        # constants added to the other log densities the model reports (C06)
        self.scale = {}
        self.cache = {}

    # -- tables
    def p0(self):
        a = (P02 if self.S == 2 else P03)
        return np.asarray(a[self.variant % len(a)], dtype=float) / 4.0

    def _noise(self, t, u):
        u = 0 if u is None else u
        a = PN2 if self.S == 2 else PN3
        if self.sharp is not None:
            e = self.sharp
            return np.asarray([[e, 1.0 - e], [1.0 - e, e]] if (2 * int(t) + int(u) + self.variant) % 2 else [[1.0 - e, e], [1.0 - e, e]])
        m = np.asarray(a[(2 * int(t) + int(u) + self.variant + (self.S == 3)) % len(a)], dtype=float) / 4.0
        return m

    def shift(self, t, u):
        return (int(t) + 2 * int(u or 0)) % self.S

    def P(self, t, u):
        u = 0 if u is None else u
        k = ('P', float(t), float(u))
        if k not in self.cache:
            pn = self._noise(t, u)
            s = self.shift(t, u)
            P = np.empty((self.S, self.S))
            for x in range(self.S):
                for w in range(self.S):
                    P[x, (w + s) % self.S] = pn[x, w]
            self.cache[k] = P
        return self.cache[k]

    def g(self, t, y):
        k = ('g', float(t), float(y))
        if k not in self.cache:
            a = G2 if self.S == 2 else G3
            self.cache[k] = np.asarray(a[(3 * int(t) + int(y) + self.variant) % len(a)], dtype=float)
            if self.zeros:
                v = self.cache[k].copy()
                v[(int(t) + int(y)) % self.S] = 0.0
                self.cache[k] = v
        return self.cache[k]

    def logg(self, t, y):
        return np.log(self.g(t, y)) + self.logscale(t)

    def first_stage(self, t, u, y):
        a = [(1.0, 3.0, 2.0), (3.0, 1.0, 1.0), (1.0, 1.0, 4.0), (2.0, 1.0, 1.0)]
        return np.asarray(a[(int(t) + int(u or 0) + int(y) + self.variant) % 4][:self.S])

    def q(self, t, u, y):
        """SIR proposal: q[x, x'] depending on everything it may depend on."""
        a = [((1, 3), (2, 2)), ((2, 2), (3, 1)), ((3, 1), (1, 3))] if self.S == 2 else \
            [((1, 1, 2), (2, 1, 1), (1, 2, 1)), ((2, 1, 1), (1, 2, 1), (1, 1, 2))]
        return np.asarray(a[(int(t) + 2 * int(u or 0) + int(y)) % len(a)], dtype=float) / 4.0

    def qy(self, t, y):
        g = self.g(t, y)
        return g / g.sum()

    def qsmooth(self, t, xprev, xnext, y):
        """Proposal for the MH smoothers: a distribution over x_t, strictly positive."""
        k = int(t) + (0 if y is None else int(y)) + (0 if xprev is None else 1 + int(xprev)) + \
            (0 if xnext is None else 2 * (1 + int(xnext)))
        if self.S == 2:
            a = [(1, 3), (3, 1), (2, 2)]
        else:
            a = [(2, 1, 1), (1, 2, 1), (1, 1, 2)]
        return np.asarray(a[k % 3], dtype=float) / 4.0

    # -- exact reference
    def sc(self, kind, t):
        f = self.scale.get(kind)
        return f(int(t)) if f else 0.0

    def like(self, t):
        """Likelihood vector used at time t (ones if there is no measurement), without scale."""
        if self.y[t] is None:
            return np.ones(self.S)
        return self.g(t, self.y[t])

    def path_weight(self, path):
        p = self.p0()[path[0]] * self.like(0)[path[0]]
        for t in range(1, len(path)):
            p *= self.P(t - 1, self.u[t - 1])[path[t - 1], path[t]] * self.like(t)[path[t]]
        return p

    def joint(self, T=None):
        """dict path -> exact posterior probability of the whole path."""
        T = self.T if T is None else T
        d = {p: self.path_weight(p) for p in itertools.product(range(self.S), repeat=T)}
        z = sum(d.values())
        return {p: v / z for p, v in d.items()}

    def filt(self, t):
        """Unnormalised filter measure (with all likelihood increments up to t)."""
        a = self.p0() * self.like(0)
        for k in range(t):
            a = a.dot(self.P(k, self.u[k])) * self.like(k + 1)
        return a


def make_model(spec, record=None):
    """A user model for the library (built on the library's own interface classes)."""
    from pyparticleest import interfaces

    S = spec.S

    def states(p):
        return np.asarray(np.asarray(p)[:, 0], dtype=int)

    def val(u):
        # a missing input acts like input 0 but is recorded as None
        return None if u is None else float(np.asarray(u, dtype=float).reshape(-1)[0])

    class Model(interfaces.ParticleFiltering, interfaces.AuxiliaryParticleFiltering,
                interfaces.FFBSiRS, interfaces.SampleProposer):
        spec_ = spec

        def create_initial_estimate(self, N):
            out = np.empty((N, 2))
            for i in range(N):
                x = seam.pick(list(spec.p0()))
                out[i] = (x, S + x)
            return out

        def sample_process_noise(self, particles, u, t):
            if record is not None:
                record.append(('noise', states(particles).tolist(), val(u), float(t)))
            n = spec._noise(t, val(u))
            return np.asarray([seam.pick(list(n[x])) for x in states(particles)], dtype=float)

        def update(self, particles, u, t, noise):
            if record is not None:
                record.append(('update', states(particles).tolist(), val(u), float(t)))
            s = spec.shift(t, val(u))
            for i in range(len(particles)):
                x = (int(noise[i]) + s) % S
                particles[i, 0] = x
                particles[i, 1] = particles[i, 1] * S + x
            return particles

        def measure(self, particles, y, t):
            if record is not None:
                record.append(('measure', states(particles).tolist(), None if y is None else val(y), float(t)))
            if y is None:
                raise AssertionError('likelihood evaluated for a missing measurement')
            return spec.logg(t, val(y))[states(particles)]

        def eval_1st_stage_weights(self, particles, u, y, t):
            if record is not None:
                record.append(('first', states(particles).tolist(), val(u), None if y is None else val(y), float(t)))
            return np.log(spec.first_stage(t, val(u), val(y)))[states(particles)] + spec.sc('first', t)

        def logp_xnext(self, particles, next_part, u, t):
            if record is not None:
                record.append(('xnext', states(particles).tolist(), states(next_part).tolist(), val(u), float(t)))
            if len(particles) != len(next_part):
                raise AssertionError('logp_xnext: %d particles, %d next' % (len(particles), len(next_part)))
            return np.log(spec.P(t, val(u)))[states(particles), states(next_part)] + spec.sc('xnext', t)

        def logp_xnext_max(self, particles, u, t):
            return np.max(np.log(spec.P(t, val(u)))[states(particles)]) + getattr(self, 'slack', 0.0) + spec.sc('xnext', t)

        def eval_logp_x0(self, particles, t):
            if record is not None:
                record.append(('x0', states(particles).tolist(), float(t)))
            return np.log(spec.p0())[states(particles)] + spec.sc('x0', t)

        # SIR
        def qsample(self, particles, u, y, t):
            q = spec.q(t, val(u), val(y))
            out = np.empty((len(particles), 2))
            for i, x in enumerate(states(particles)):
                n = seam.pick(list(q[x]))
                out[i] = (n, particles[i][1] * S + n)
            return out

        def logp_q(self, particles, next_part, u, y, t):
            return np.log(spec.q(t, val(u), val(y)))[states(particles), states(next_part)] + spec.sc('q', t)

        # proposal from the measurement
        def propose_from_y(self, N, y, t):
            q = spec.qy(t, val(y))
            out = np.empty((N, 2))
            for i in range(N):
                x = seam.pick(list(q))
                out[i] = (x, -1)
            return out

        # proposals for MH smoothers
        def _qparams(self, N, ptraj, anc, future_trajs, find, yt, tt, cur_ind):
            xp = None if ptraj is None else states(ptraj[-1].pa.part[anc])
            xn = None if future_trajs is None else states(future_trajs[0].pa.part[find])
            y = yt[cur_ind]
            return [spec.qsmooth(tt[cur_ind], None if xp is None else xp[i], None if xn is None else xn[i],
                                 None if y is None else val(y)) for i in range(N)]

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            N = len(anc) if ptraj is not None else len(find)
            out = np.empty((N, 2))
            for i, q in enumerate(self._qparams(N, ptraj, anc, future_trajs, find, yt, tt, cur_ind)):
                x = seam.pick(list(q))
                out[i] = (x, -1)
            return out

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            qs = self._qparams(len(prop_part), ptraj, anc, future_trajs, find, yt, tt, cur_ind)
            return np.asarray([math.log(q[x]) for q, x in zip(qs, states(prop_part))]) + spec.sc('prop', tt[cur_ind])

    return Model()


def lineage(v, S):
    """Lineage number -> tuple of states."""
    v = int(v)
    out = []
    while v >= S:
        out.append(v % S)
        v //= S
    return tuple(reversed(out))


def subset_sums(w):
    s = [0.0]
    for x in w:
        s = s + [a + x for a in s]
    return s


def weight_points(ws, ns):
    """Breakpoints of inverse-CDF sampling (any order of summation) of n indices from weights ws."""
    pts = set()
    for w in ws:
        w = np.asarray(w, dtype=float)
        t = w.sum()
        if not t > 0 or not np.isfinite(t):
            continue
        w = w / t
        ss = subset_sums(w) if len(w) <= 5 else list(np.cumsum(w)) + list(1 - np.cumsum(w))
        for s in ss:
            for n in ns:
                x = (n * s) % 1.0
                pts.add(round(x, 13))
                pts.add(round(1.0 - x, 13))
    return pts


def nw(logw):
    """Normalised weights of log weights."""
    logw = np.asarray(logw, dtype=float)
    m = np.max(logw)
    if not np.isfinite(m):
        return np.full(len(logw), np.nan)
    x = np.exp(logw - m)
    return x / x.sum()


class Ring(Spec):
    """Many states; the state moves along a ring by a known, time- and input-dependent number of
    places, so that every particle has exactly one possible predecessor."""

    def p0(self):
        return np.full(self.S, 1.0 / self.S)

    def _noise(self, t, u):
        return np.eye(self.S)

    def shift(self, t, u):
        return (5 + 2 * int(t) + 3 * int(u or 0)) % self.S

    def g(self, t, y):
        return 1.0 + (np.arange(self.S) * (2 + int(t)) + int(y)) % 4

    def first_stage(self, t, u, y):
        return 1.0 + (np.arange(self.S) + int(t)) % 3

    def qy(self, t, y):
        return self.p0()

    def qsmooth(self, t, xprev, xnext, y):
        return self.p0()


class Window(Spec):
    """A long chain whose state is known except at the times in `free`, so that a long history has
    few outcomes and its law can still be enumerated exactly."""

    def __init__(self, free=(), **kw):
        super(Window, self).__init__(**kw)
        self.free = tuple(free)

    def known(self, t):
        return None if t in self.free else (int(t) + (int(t) // 3) + self.variant) % self.S

    def p0(self):
        k = self.known(0)
        return super(Window, self).p0() if k is None else np.eye(self.S)[k]

    def _noise(self, t, u):
        k = self.known(int(t) + 1)
        if k is None:
            return super(Window, self)._noise(t, u)
        return np.tile(np.eye(self.S)[(k - self.shift(t, u)) % self.S], (self.S, 1))

    def qsmooth(self, t, xprev, xnext, y):
        k = self.known(t)
        return super(Window, self).qsmooth(t, xprev, xnext, y) if k is None else np.eye(self.S)[k]
