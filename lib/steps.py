"""Driving the real filters step by step over the random-outcome tree."""
import copy
import itertools
import math
import numpy as np
from lib import seam, hmm


def new_pt(model, N, filt, res=2.0 / 3.0, options=None, T=None):
    from pyparticleest.filter import ParticleTrajectory
    return ParticleTrajectory(model, N, res, filter=filt, filter_options=options if options is not None else {}, T=T)


def clone(pt, model):
    return copy.deepcopy(pt, {id(model): model})


def prelude(spec, model, N, filt, k, res=0.0, options=None, T=None):
    """A trajectory at time k reached along the default random outcomes."""
    c = seam.Controller(cells=seam.make_cells((), 4))
    with seam.active(c):
        pt = new_pt(model, N, filt, res, options, T)
        if spec.y[0] is not None and filt not in ('pfy', 'cpfyas'):
            pt.measure(spec.y[0])
        elif filt in ('pfy', 'cpfyas') and spec.y[0] is not None:
            pt.measure(spec.y[0])
        for t in range(k):
            pt.forward(spec.u[t], spec.y[t + 1])
    return pt


def states_of(pa):
    return tuple(int(x) for x in np.asarray(pa.part)[:, 0])


WPAT = {
    1: [(1,)],
    2: [(1, 1), (1, 3), (3, 1), (9, 1), (1, 0), (0, 1)],
    3: [(1, 1, 1), (1, 3, 1), (9, 1, 1), (1, 2, 5), (0, 1, 1), (1, 0, 0), (0, 0, 1)],
    4: [(1, 1, 1, 1), (8, 4, 2, 1), (0, 1, 0, 3), (1, 0, 0, 0)],
}


def seed_approximation(pt, spec, xs, w, offset=0.0):
    """Overwrite the current approximation of a trajectory (state, lineage, weights)."""
    pa = pt.traj[-1].pa
    xs = list(xs)
    part = pa.part
    for i, x in enumerate(xs):
        part[i, 0] = x
        part[i, 1] = spec.S + x
    with np.errstate(divide='ignore'):
        pa.w = np.log(np.asarray(w, dtype=float)) + offset
    return pt


def step_points(spec, filt, t, xs, W, ns):
    """Breakpoints of the selection steps of a forward step from (xs, W) at time t."""
    ws = [W]
    if filt == 'apf' and spec.y[t + 1] is not None:
        a = spec.first_stage(t, spec.u[t], spec.y[t + 1])
        ws.append(np.asarray(W) * a[list(xs)])
    return hmm.weight_points(ws, ns)


def increments(spec, filt, t, xs, W, resampled, anc, xn):
    """Unnormalised new weights of a correct step (their sum is the likelihood increment).

    xs, W: old states and normalised weights; anc, xn: ancestors and new states.
    """
    N = len(xs)
    u = spec.u[t]
    y = spec.y[t + 1]
    P = spec.P(t, u)
    g = spec.like(t + 1)
    out = np.empty(len(xn))
    if filt == 'apf' and y is not None:
        a = spec.first_stage(t, u, y)
        for i in range(len(xn)):
            if resampled:
                tot = sum(W[j] * a[xs[j]] for j in range(N))
                out[i] = tot / N * g[xn[i]] / a[xs[anc[i]]]
            else:
                out[i] = W[i] * g[xn[i]]
        return out
    for i in range(len(xn)):
        w = 1.0 / N if resampled else W[i]
        xa = xs[anc[i]]
        if filt in ('pf', 'apf'):
            out[i] = w * g[xn[i]]
        elif filt == 'sir':
            q = spec.q(t, u, y)
            out[i] = w * P[xa, xn[i]] * g[xn[i]] / q[xa, xn[i]]
        elif filt == 'pfy':
            out[i] = w * P[xa, xn[i]] * g.sum()
        else:
            raise ValueError(filt)
    return out
