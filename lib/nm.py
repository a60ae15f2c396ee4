"""A second-order hidden Markov model, for the interfaces meant for non-Markovian models.

x_{t+1} depends on (x_t, x_{t-1}, u_t), y_t on (x_t, x_{t-1}, u_{t-1}).  A particle is
[state, identity, identity of its predecessor, identity of its successor]; the last two are filled in
by sample_smooth from the indices it is handed.  The previous state is not stored in the particle: the
model has to look it up through the history and the indices the library passes.
"""
import itertools
import numpy as np
from lib import seam

ROWS = [(1, 3), (3, 1), (2, 2)]
GV = [1.0, 3.0, 2.0, 5.0]
S = 2


class Spec(object):
    S = S

    def __init__(self, T, variant=0, y0=True, missing=(), gprev=True):
        self.T, self.variant, self.gprev = T, variant, gprev
        self.u = [(2 * t + variant) % 5 for t in range(T)]
        self.y = [(3 * t + variant) % 7 - 2 for t in range(T)]
        if not y0:
            self.y[0] = None
        for m in missing:
            self.y[m] = None

    def p0(self):
        return np.asarray([(2, 2), (1, 3), (3, 1)][self.variant % 3], dtype=float) / 4.0

    def tr(self, t, u, a, b):
        """Law of x_{t+1} given x_t = b and x_{t-1} = a (None at t = 0)."""
        k = int(t) + int(u) + self.variant + b + (0 if a is None else 2 * a)
        return np.asarray(ROWS[k % 3], dtype=float) / 4.0

    def g(self, t, y, u, a, b):
        """Likelihood of y_t given x_t = b, x_{t-1} = a, input u before t."""
        k = int(t) + int(y) + self.variant + 2 * b
        if self.gprev and a is not None:
            k += int(u) + a
        return GV[k % 4]

    def like(self, t, a, b):
        if self.y[t] is None:
            return 1.0
        return self.g(t, self.y[t], self.u[t - 1] if t else 0, a, b)

    def qy(self, t, y):
        g = np.asarray([self.g(t, y, 0, None, b) for b in range(S)])
        return g / g.sum()

    def first_stage(self, t, u, y):
        return np.asarray([(1.0, 3.0), (2.0, 1.0), (4.0, 1.0)][(int(t) + int(u) + int(y)) % 3])

    def qs(self, t, a, nxt, y):
        k = int(t) + (0 if y is None else int(y)) + (0 if a is None else 1 + a) + (0 if nxt is None else 2 + 2 * nxt)
        return np.asarray(ROWS[k % 3], dtype=float) / 4.0

    def step(self, t, a, b, c):
        """Density of x_{t+1} = c and y_{t+1}."""
        return self.tr(t, self.u[t], a, b)[c] * self.like(t + 1, b, c)

    def path_weight(self, p):
        w = self.p0()[p[0]] * self.like(0, None, p[0])
        for t in range(len(p) - 1):
            w *= self.step(t, None if t == 0 else p[t - 1], p[t], p[t + 1])
        return w

    def future(self, t, a, b, fut):
        """Density of x_{t+1:} = fut and its measurements given x_t = b, x_{t-1} = a."""
        w = 1.0
        prev, cur = a, b
        for k, c in enumerate(fut):
            w *= self.step(t + k, prev, cur, c)
            prev, cur = cur, c
        return w

    def joint(self, T=None):
        T = self.T if T is None else T
        d = {p: self.path_weight(p) for p in itertools.product(range(S), repeat=T)}
        z = sum(d.values())
        return {p: v / z for p, v in d.items()}


def st(part):
    return [int(x) for x in np.asarray(part)[:, 0]]


def val(u):
    return float(np.asarray(u, dtype=float).reshape(-1)[0])


def prevs(traj, anc, n):
    """States of the predecessors (None at the first time)."""
    if traj is None or len(traj) == 0:
        return [None] * n
    p = np.asarray(traj[-1].pa.part)[np.asarray(anc, dtype=int)]
    if len(p) != n:
        raise AssertionError('%d ancestors for %d particles' % (len(p), n))
    return st(p)


def make_model(spec):
    from pyparticleest import interfaces

    class Model(interfaces.ParticleFilteringNonMarkov, interfaces.FFBSiRSNonMarkov, interfaces.FFProposeFromMeasure,
                interfaces.SampleProposer):

        def new(self, xs):
            out = np.empty((len(xs), 4))
            out[:, 0] = xs
            out[:, 1:] = -1
            return out

        def create_initial_estimate(self, N):
            return self.new([seam.pick(list(spec.p0())) for _ in range(N)])

        def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
            # the noise is the next state itself: everything it depends on comes from the history
            cur = st(np.asarray(ptraj[-1].pa.part)[np.asarray(ancestors, dtype=int)])
            pp = prevs(ptraj[:-1], np.asarray(ptraj[-1].ancestors)[np.asarray(ancestors, dtype=int)] if len(ptraj) > 1 else None, len(cur))
            t, u = int(tt[-1]), val(ut[-1])
            return np.asarray([seam.pick(list(spec.tr(t, u, a, b))) for a, b in zip(pp, cur)])

        def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
            src = np.asarray(traj[-1].pa.part)[np.asarray(ancestors, dtype=int)]
            if st(src) != st(particles):
                raise AssertionError('particles %r are not those of their ancestors %r' % (st(particles), st(src)))
            if len(uvec) != len(tvec) or len(tvec) != len(traj):
                raise AssertionError('history of lengths %d %d %d' % (len(uvec), len(tvec), len(traj)))
            particles[:, 0] = noise
            particles[:, 1:] = -1
            return particles

        def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
            t = len(yvec) - 1
            if int(tvec[-1]) != t or len(tvec) != t + 1:
                raise AssertionError('times %r for %d measurements' % (tvec, len(yvec)))
            y = yvec[-1]
            if y is None:
                raise AssertionError('likelihood of a missing measurement')
            a = prevs(traj, ancestors, len(particles))
            if (t == 0) != (a[0] is None):
                raise AssertionError('history of %r steps at t=%d' % (None if traj is None else len(traj), t))
            u = val(uvec[t - 1]) if t > 0 else 0
            return np.log([spec.g(t, val(y), u, p, b) for p, b in zip(a, st(particles))])

        def eval_1st_stage_weights(self, particles, u, y, t):
            return np.log(spec.first_stage(t, val(u), val(y)))[st(particles)]

        def eval_logp_x0(self, particles, t):
            return np.log(spec.p0())[st(particles)]

        def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            a = prevs(past_trajs, pind, len(part))
            find = np.asarray(find, dtype=int)
            fut = [st(np.asarray(f.pa.part)[find]) for f in future_trajs]
            if len(fut) != spec.T - 1 - cur_ind:
                raise AssertionError('%d future steps at t=%d' % (len(fut), cur_ind))
            self.check(ut, yt, tt, cur_ind)
            return np.log([spec.future(cur_ind, p, b, [f[i] for f in fut]) for i, (p, b) in enumerate(zip(a, st(part)))])

        def check(self, ut, yt, tt, cur_ind):
            """The data the smoothers and filters hand over is the data."""
            if int(tt[cur_ind]) != cur_ind or val(ut[cur_ind]) != spec.u[cur_ind]:
                raise AssertionError('wrong input or time at %d' % cur_ind)
            for k in range(cur_ind + 1):
                if (yt[k] is None) != (spec.y[k] is None) or (yt[k] is not None and val(yt[k]) != spec.y[k]):
                    raise AssertionError('wrong measurement %d' % k)

        def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
            if cur_ind and (past_trajs is None or len(past_trajs) != cur_ind):
                raise AssertionError('%r past steps at t=%d' % (past_trajs, cur_ind))
            a = prevs(past_trajs, pind, len(part))
            nx = st(np.asarray(future_parts)[np.asarray(find, dtype=int)])
            return np.log([spec.tr(tt[cur_ind], val(ut[cur_ind]), p, b)[c] for p, b, c in zip(a, st(part), nx)])

        def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
            a = prevs(past_trajs, pind, len(part))
            n = spec.T - 1 - cur_ind
            return np.log(max(spec.future(cur_ind, p, b, f) for p, b in zip(a, st(part))
                              for f in itertools.product(range(S), repeat=n))) + getattr(self, 'slack', 0.0)

        def propose_from_y(self, N, y, t):
            return self.new([seam.pick(list(spec.qy(t, val(y)))) for _ in range(N)])

        def qpar(self, n, ptraj, anc, future_trajs, find, yt, cur_ind):
            a = prevs(ptraj, anc, n)
            nx = [None] * n if future_trajs is None else st(np.asarray(future_trajs[0].pa.part)[np.asarray(find, dtype=int)])
            y = None if yt[cur_ind] is None else val(yt[cur_ind])
            return [spec.qs(cur_ind, p, c, y) for p, c in zip(a, nx)]

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            n = len(anc) if ptraj is not None else len(find)
            return self.new([seam.pick(list(q)) for q in self.qpar(n, ptraj, anc, future_trajs, find, yt, cur_ind)])

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            q = self.qpar(len(prop_part), ptraj, anc, future_trajs, find, yt, cur_ind)
            return np.log([p[x] for p, x in zip(q, st(prop_part))])

        def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
            out = np.array(part, dtype=float, copy=True)
            n = len(out)
            out[:, 2:] = -1
            if ptraj is not None and len(ptraj):
                if len(ptraj) != cur_ind:
                    raise AssertionError('%d past steps at t=%d' % (len(ptraj), cur_ind))
                out[:, 2] = np.asarray(ptraj[-1].pa.part)[np.asarray(anc, dtype=int)][:n, 1]
            if future_trajs is not None:
                if len(future_trajs) != spec.T - 1 - cur_ind:
                    raise AssertionError('%d future steps at t=%d' % (len(future_trajs), cur_ind))
                out[:, 3] = np.asarray(future_trajs[0].pa.part)[np.asarray(find, dtype=int)][:n, 1]
            return out
    return Model()


def set_approx(pt, xs, ws, ancs, offset=None):
    """Overwrite all steps: states, weights, ancestors; identity of particle i of time t: 100 t + i + 10."""
    for t, s in enumerate(pt.traj):
        N = len(xs[t])
        p = np.full((N, 4), -1.0)
        p[:, 0] = xs[t]
        p[:, 1] = [100 * t + i + 10 for i in range(N)]
        with np.errstate(divide='ignore'):
            s.pa.w = np.log(np.asarray(ws[t], dtype=float) / float(np.sum(ws[t]))) + (offset(t) if offset else 0.0)
        s.pa.part = p
        s.pa.num = N
        s.ancestors = np.asarray(ancs[t], dtype=int)
    return pt


def history(pt, t, i):
    """State path x_0..x_t of particle i of time t, through the ancestors."""
    out = []
    while t >= 0:
        out.append(int(pt.traj[t].pa.part[i, 0]))
        i = int(pt.traj[t].ancestors[i])
        t -= 1
    return tuple(out[::-1])
