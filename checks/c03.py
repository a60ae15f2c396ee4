"""C03 proper weighting of the forward filters, on every random outcome."""
import itertools
import numpy as np
from lib import seam, hmm, steps
from lib.env import THOROUGH

CONFS = ('pure',)
TOL = 1e-9


def f_onestep(r, filt, N, S, variant, k, res):
    """From every approximation (particles x weights) at time k: one forward step."""
    spec = hmm.Spec(S=S, T=k + 2, variant=variant, y0=True)
    model = hmm.make_model(spec)
    base = steps.prelude(spec, model, N, filt, k, res)
    W_all = steps.WPAT[N]
    P = spec.P(k, spec.u[k])
    g = spec.like(k + 1)
    for xs in itertools.product(range(S), repeat=N):
        for w in W_all:
            W = np.asarray(w, dtype=float) / sum(w)
            pts = steps.step_points(spec, filt, k, xs, W, (N,))
            cells = seam.make_cells(pts, grid=4)

            def body(c):
                pt = steps.clone(base, model)
                steps.seed_approximation(pt, spec, xs, w)
                resampled = pt.forward(spec.u[k], spec.y[k + 1])
                return resampled, pt.traj[-1]
            est = np.zeros(S)
            st = seam.Stats()
            for p, ch, (resampled, step) in seam.explore(body, cells=cells, stats=st, lazy=True):
                xn = steps.states_of(step.pa)
                inc = steps.increments(spec, filt, k, xs, W, resampled, np.asarray(step.ancestors, dtype=int), xn)
                Wn = hmm.nw(step.pa.w)
                c = inc.sum()
                if c == 0.0:
                    continue
                for i in range(N):
                    est[xn[i]] += p * c * Wn[i]
                r.outcome((xn, bool(resampled)))
            r.add(st)
            r.states += 1
            exact = np.zeros(S)
            for i in range(N):
                exact += W[i] * P[xs[i]] * g
            if not np.max(np.abs(est - exact)) <= TOL:
                return r.fail('onestep:' + filt, '%s from particles %r weights %r at t=%d: expectation %r, exact %r'
                              % (filt, xs, w, k, est, exact), xs=xs, w=w)
    r.sample(filter=filt, particles=xs, weights=w, expectation=list(est), exact=list(exact))


def f_run(r, filt, N, S, variant, T, res, y0, missing=(), free=None):
    """From the initial distribution: whole runs, merging equal weighted approximations.  With `free`
    only the states at those times are unknown (long histories)."""
    if free is None:
        spec = hmm.Spec(S=S, T=T, variant=variant, y0=y0, missing=missing)
    else:
        spec = hmm.Window(free=free, S=S, T=T, variant=variant, y0=y0, missing=missing)
    model = hmm.make_model(spec)
    cells0 = seam.make_cells((), 2)
    # initial approximations
    front = {}

    def start(c):
        pt = steps.new_pt(model, N, filt, res)
        if y0:
            pt.measure(spec.y[0])
            return pt
        # the initial estimate is created by the first forward; observe it there
        return pt

    def key(pt):
        pa = pt.traj[-1].pa
        return (steps.states_of(pa), tuple(np.round(hmm.nw(pa.w), 10)))

    def judge(t):
        est = np.zeros(S)
        for (xs, W), (m, pt) in front.items():
            for i in range(N):
                est[xs[i]] += m * W[i]
        exact = spec.filt(t)
        if filt == 'pfy' and y0:
            # pfy starts from the measurement alone (flat prior)
            a = spec.like(0).copy()
            for k in range(t):
                a = a.dot(spec.P(k, spec.u[k])) * spec.like(k + 1)
            exact = a
        if not np.max(np.abs(est - exact)) <= TOL * max(1.0, exact.sum()):
            return r.fail('run:' + filt, '%s N=%d res=%g: estimate of the unnormalised filter at t=%d is %r, exact %r'
                          % (filt, N, res, t, est, exact))
        r.sample(filter=filt, t=t, estimate=list(est), exact=list(exact))
        return True

    st = seam.Stats()
    t = 0
    if y0:
        for p, ch, pt in seam.explore(start, cells=cells0, stats=st, lazy=True):
            xs = steps.states_of(pt.traj[-1].pa)
            if filt == 'pfy':
                m = p * spec.like(0).sum()
            else:
                m = p * np.mean([spec.like(0)[x] for x in xs])
            k = key(pt)
            front[k] = (front.get(k, (0.0, pt))[0] + m, pt)
        r.states += len(front)
        if not judge(0):
            return
    else:
        # one forward from nothing
        for p, ch, (pt, resampled) in seam.explore(
                lambda c: (lambda q: (q, q.forward(spec.u[0], spec.y[1])))(steps.new_pt(model, N, filt, res)),
                cells=seam.make_cells(hmm.weight_points([[1] * N] + (
                    [spec.first_stage(0, spec.u[0], spec.y[1])[list(x)] for x in itertools.product(range(S), repeat=N)]
                    if filt == 'apf' and spec.y[1] is not None else []), (N,)), 2), stats=st, lazy=True):
            xs = steps.states_of(pt.traj[0].pa)
            step = pt.traj[1]
            inc = steps.increments(spec, filt, 0, xs, np.ones(N) / N, resampled, np.asarray(step.ancestors, dtype=int),
                                   steps.states_of(step.pa))
            k = key(pt)
            front[k] = (front.get(k, (0.0, pt))[0] + p * inc.sum(), pt)
        r.states += len(front)
        t = 1
        if not judge(1):
            return
    while t + 1 < T:
        nxt = {}
        for (xs, W), (m, pt) in front.items():
            cells = seam.make_cells(steps.step_points(spec, filt, t, xs, np.asarray(W), (N,)), 2)

            def body(c):
                q = steps.clone(pt, model)
                return q, q.forward(spec.u[t], spec.y[t + 1])
            for p, ch, (q, resampled) in seam.explore(body, cells=cells, stats=st, lazy=True):
                step = q.traj[-1]
                inc = steps.increments(spec, filt, t, xs, np.asarray(W), resampled, np.asarray(step.ancestors, dtype=int),
                                       steps.states_of(step.pa))
                if inc.sum() == 0.0:
                    continue
                k = key(q)
                nxt[k] = (nxt.get(k, (0.0, q))[0] + m * p * inc.sum(), q)
        front = nxt
        for k in front:
            r.outcome(k[0])
        t += 1
        r.states += len(front)
        if not judge(t):
            break
    r.add(st)


def tasks():
    out = []
    for filt in ('pf', 'apf', 'sir', 'pfy'):
        for variant in ((0, 1, 2) if not THOROUGH else range(6)):
            for res in (0.0, 0.6, 0.67, 0.95, 1.0):
                for k in (0, 1):
                    out.append(('f_onestep', dict(filt=filt, N=2, S=2, variant=variant, k=k, res=res)))
                    if variant == 0 or THOROUGH:
                        out.append(('f_onestep', dict(filt=filt, N=3, S=2, variant=variant + k, k=k, res=res)))
                        out.append(('f_onestep', dict(filt=filt, N=2, S=3, variant=variant + k, k=k, res=res)))
                        out.append(('f_onestep', dict(filt=filt, N=1, S=3, variant=variant, k=k, res=res)))
        for y0 in (True, False):
            for res in (0.0, 0.67, 1.0):
                for variant in ((0, 1) if not THOROUGH else (0, 1, 2, 3)):
                    out.append(('f_run', dict(filt=filt, N=2, S=2, variant=variant, T=5 if not THOROUGH else 6, res=res, y0=y0)))
            out.append(('f_run', dict(filt=filt, N=3, S=2, variant=2, T=3, res=0.67, y0=y0)))
            if filt in ('pf', 'apf'):
                for v, free in enumerate(((0, 1, 4), (3, 6, 7), (2, 3, 8))):
                    for res in (0.0, 0.67, 1.0):
                        out.append(('f_run', dict(filt=filt, N=2, S=2, variant=v, T=9, res=res, y0=y0, free=free, missing=((), (4,), (5, 8))[v])))
                        out.append(('f_run', dict(filt=filt, N=3, S=2, variant=v, T=7, res=res, y0=y0, free=free[:2])))
            out.append(('f_run', dict(filt=filt, N=2, S=3, variant=1, T=3, res=0.67, y0=y0)))
    return out[::-1]
