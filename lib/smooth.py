"""Driving the real smoothers from chosen filter approximations."""
import itertools
import numpy as np
from lib import seam, hmm, steps


def base_pt(spec, model, N, filt='pf'):
    """A trajectory of length T whose steps are then overwritten with set_approx."""
    c = seam.Controller(cells=seam.make_cells((), 3))
    with seam.active(c):
        pt = steps.new_pt(model, N, filt, 0.0)
        if spec.y0:
            pt.measure(spec.y[0])
        for t in range(spec.T - 1):
            pt.forward(spec.u[t], spec.y[t + 1])
    return pt


def set_approx(pt, xs, ws, ancs, offset=None):
    """xs[t]: states, ws[t]: weights, ancs[t]: ancestor indices.  Particle i of time t gets the
    identity number 100 t + i + 10 in its second column."""
    for t, s in enumerate(pt.traj):
        N = len(xs[t])
        p = np.empty((N, 2))
        p[:, 0] = xs[t]
        p[:, 1] = [100 * t + i + 10 for i in range(N)]
        with np.errstate(divide='ignore'):
            w = np.log(np.asarray(ws[t], dtype=float) / float(np.sum(ws[t])))
        s.pa.part = p
        s.pa.w = w + (offset(t) if offset else 0.0)
        s.pa.num = N
        s.ancestors = np.asarray(ancs[t], dtype=int)
    return pt


def snapshot(pt):
    return [(np.array(s.pa.part, copy=True), np.array(s.pa.w, copy=True), np.array(s.ancestors, copy=True),
             np.array(pt.uvec, copy=True), np.array(pt.yvec, copy=True), np.array(pt.tvec, copy=True)) for s in pt.traj]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for s, t in zip(a, b) for x, y in zip(s, t))


def ids(straj):
    """[M][T] particle numbers (identity - 10 - 100 t), states [M][T]."""
    T = len(straj.traj)
    P = [np.asarray(s.pa.part) for s in straj.traj]
    M = len(P[0])
    return ([tuple(int(round(P[t][m, 1])) - 10 - 100 * t for t in range(T)) for m in range(M)],
            [tuple(int(round(P[t][m, 0])) for t in range(T)) for m in range(M)])


def wellformed(straj, spec, M):
    """Complaint or None."""
    if len(straj.traj) != spec.T or len(straj) != spec.T:
        return 'trajectory has %d steps, not %d' % (len(straj.traj), spec.T)
    for t, s in enumerate(straj.traj):
        p = np.asarray(s.pa.part)
        if p.shape != (M, 2):
            return 'particles of step %d have shape %r, expected %r' % (t, p.shape, (M, 2))
        if np.any(np.isnan(p)):
            return 'nan in step %d' % t
    return None


def backward_law(spec, xs, ws):
    """Exact law of (i_0..i_{T-1}); None if some future has no possible predecessor."""
    T = spec.T
    W = [np.asarray(w, dtype=float) / np.sum(w) for w in ws]
    law = {(i,): W[T - 1][i] for i in range(len(W[T - 1])) if W[T - 1][i] > 0}
    for t in range(T - 2, -1, -1):
        P = spec.P(t, spec.u[t])
        new = {}
        for path, p in law.items():
            k = np.asarray([W[t][i] * P[xs[t][i], xs[t + 1][path[0]]] for i in range(len(W[t]))])
            z = k.sum()
            if not z > 0:
                return None
            for i in range(len(k)):
                if k[i] > 0:
                    new[(i,) + path] = p * k[i] / z
        law = new
    return law


def dist(a, b):
    return max([abs(a.get(k, 0.0) - b.get(k, 0.0)) for k in set(a) | set(b)] or [0.0])
