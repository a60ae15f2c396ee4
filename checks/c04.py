"""C04: resampling decision, returned flag, ancestry and weights of every forward step."""
import itertools
import numpy as np
from lib import seam, hmm, steps
from lib.env import THOROUGH

CONFS = ('pure',)


def neff(W):
    return 1.0 / np.sum(np.asarray(W) ** 2)


def selection_weights(spec, filt, t, xs, W):
    if filt == 'apf' and spec.y[t + 1] is not None:
        a = spec.first_stage(t, spec.u[t], spec.y[t + 1])[list(xs)]
        w = np.asarray(W) * a
        return w / w.sum()
    return np.asarray(W)


def judge_step(r, spec, filt, t, res, old, resampled, step):
    """old = (states, lineages, W) before; step = the new TrajectoryStep.  True if all is well."""
    xs, lin, W = old
    N = len(xs)
    sel = selection_weights(spec, filt, t, xs, W)
    ne = neff(sel)
    if res == 0.0:
        want = False
    elif abs(ne - res * N) < 1e-9:
        want = None  # tie: rounding decides
    else:
        want = ne < res * N
    ctx = dict(filter=filt, t=t, res=res, xs=xs, W=list(W), neff=ne)
    if want is not None and bool(resampled) != want:
        return r.fail('decision:' + filt, '%s: Neff=%g, res*N=%g, resampled=%r' % (filt, ne, res * N, resampled), **ctx)
    anc = np.asarray(step.ancestors, dtype=int)
    if anc.shape != (N,) or np.any(anc < 0) or np.any(anc >= N):
        return r.fail('ancestors:' + filt, 'ancestors %r' % (step.ancestors,), **ctx)
    if not resampled and not np.array_equal(anc, np.arange(N)):
        return r.fail('ancestors:' + filt, 'not resampled but ancestors %r' % (anc,), **ctx)
    if resampled and np.any(sel[anc] == 0):
        return r.fail('ancestors:' + filt, 'ancestor with zero weight', **ctx)
    part = np.asarray(step.pa.part)
    xn = steps.states_of(step.pa)
    if len(xn) != N or len(step.pa.w) != N:
        return r.fail('size:' + filt, 'size changed', **ctx)
    if filt != 'pfy':
        for i in range(N):
            if int(part[i, 1]) != int(lin[anc[i]]) * spec.S + xn[i]:
                return r.fail('lineage:' + filt, 'particle %d was propagated from %r, recorded ancestor is %r'
                              % (i, hmm.lineage(part[i, 1], spec.S), hmm.lineage(lin[anc[i]], spec.S)), anc=list(anc), **ctx)
    inc = steps.increments(spec, filt, t, xs, W, resampled, anc, xn)
    if inc.sum() > 0:
        got = hmm.nw(step.pa.w)
        if not np.max(np.abs(got - inc / inc.sum())) < 1e-9:
            return r.fail('weights:' + filt, 'new weights %r, should be %r' % (got, inc / inc.sum()), anc=list(anc), xn=xn, **ctx)
    return True


def f_step(r, filt, N, S, variant, k, res, y0=True, missing=()):
    spec = hmm.Spec(S=S, T=k + 2, variant=variant, y0=y0, missing=missing)
    model = hmm.make_model(spec)
    base = steps.prelude(spec, model, N, filt, k, res)
    for xs in itertools.product(range(S), repeat=N):
        for w in steps.WPAT[N]:
            W = np.asarray(w, dtype=float) / sum(w)
            cells = seam.make_cells(steps.step_points(spec, filt, k, xs, W, (N,)), grid=3)
            lin = [S * S + 3 * i for i in range(N)]

            def body(c):
                pt = steps.clone(base, model)
                steps.seed_approximation(pt, spec, xs, w)
                for i in range(N):
                    pt.traj[-1].pa.part[i, 1] = lin[i]
                return pt, pt.forward(spec.u[k], spec.y[k + 1])
            st = seam.Stats()
            r.states += 1
            for p, ch, (pt, resampled) in seam.explore(body, cells=cells, stats=st, lazy=True):
                r.outcome((bool(resampled), tuple(int(a) for a in pt.traj[-1].ancestors)))
                if not judge_step(r, spec, filt, k, res, (xs, lin, W), resampled, pt.traj[-1]):
                    r.violations[-1]['data']['choices'] = ch
                    r.add(st)
                    return
            r.add(st)
    r.sample(filter=filt, res=res, N=N, last_particles=xs, last_weights=w)


def f_simulate(r, filt, N, variant, T, res, y0, dev=None, S=2):
    """simulate returns the number of resampled steps; every step of the run obeys the rules."""
    from pyparticleest.simulator import Simulator
    spec = hmm.Spec(S=S, T=T, variant=variant, y0=y0)
    model = hmm.make_model(spec)
    st = seam.Stats()

    def body(c):
        sim = Simulator(model, spec.u[:T - 1], spec.y if y0 else spec.y[1:])
        n = sim.simulate(N, 0, filter=filt, smoother=None, res=res, meas_first=y0)
        return sim, n
    cells = seam.make_cells((), 4)
    for p, ch, (sim, n) in seam.explore(body, cells=cells, stats=st, lazy=True, dev=dev):
        traj = sim.pt.traj
        if len(traj) != T:
            return r.fail('length', '%d steps for %d time points' % (len(traj), T), choices=ch)
        cnt = 0
        lo = hi = 0
        for t in range(T - 1):
            xs = steps.states_of(traj[t].pa)
            W = hmm.nw(traj[t].pa.w)
            ne = neff(selection_weights(spec, filt, t, xs, W))
            tie = abs(ne - res * N) < 1e-9 and res > 0
            want = res > 0 and ne < res * N
            if tie:
                hi += 1
                # a tie may go either way; the identity does not tell
                continue
            lo += want
            hi += want
            if not judge_step(r, spec, filt, t, res, (xs, np.asarray(traj[t].pa.part)[:, 1], W), want, traj[t + 1]):
                r.violations[-1]['data']['choices'] = ch
                return
        r.outcome(n)
        if not (lo <= n <= hi):
            r.fail('count:' + filt, 'simulate returned %r resampled steps, there were %r..%r' % (n, lo, hi), choices=ch)
            return
    r.states += st.executions
    r.add(st)
    r.sample(filter=filt, T=T, N=N, res=res, returned=n)


def tasks():
    out = []
    for filt in ('pf', 'apf', 'sir', 'pfy'):
        for res in (0.0, 0.1, 0.5, 0.62, 2.0 / 3.0, 0.7, 0.95, 1.0):
            for k in (0, 1):
                for v in ((0, 1) if not THOROUGH else (0, 1, 2, 3, 4)):
                    out.append(('f_step', dict(filt=filt, N=2, S=2, variant=v, k=k, res=res)))
                out.append(('f_step', dict(filt=filt, N=3, S=2, variant=k, k=k, res=res)))
                if THOROUGH:
                    out.append(('f_step', dict(filt=filt, N=4, S=2, variant=k, k=k, res=res)))
                    out.append(('f_step', dict(filt=filt, N=3, S=3, variant=k, k=k, res=res)))
                if filt in ('pf', 'apf'):
                    out.append(('f_step', dict(filt=filt, N=3, S=2, variant=k, k=k, res=res, missing=(k + 1,))))
        for res in (0.0, 0.6, 0.67, 1.0):
            for y0 in (True, False):
                out.append(('f_simulate', dict(filt=filt, N=2, variant=0, T=3, res=res, y0=y0)))
                if THOROUGH:
                    out.append(('f_simulate', dict(filt=filt, N=2, variant=1, T=4, res=res, y0=y0)))
    return out[::-1]
