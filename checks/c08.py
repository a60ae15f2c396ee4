"""C08: conditional filters carry the reference trajectory (state, weight, ancestor law)."""
import itertools
import numpy as np
from lib import seam, hmm, steps
from lib.env import THOROUGH

CONFS = ('pure',)
FILTERS = ('cpf', 'cpfas', 'csiras', 'cpfyas')


def ref_traj(xs, M=1):
    """Reference trajectory in the form smoothers return it; second column identifies it."""
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    out = np.empty((len(xs),), dtype=object)
    for t, x in enumerate(xs):
        out[t] = TrajectoryStep(ParticleApproximation(np.asarray([[float(x), 5000.0 + t]])), np.arange(1))
    return out


def increment(spec, filt, t, xa, x):
    """Importance weight of a particle with ancestor state xa and state x at time t + 1."""
    u, y = spec.u[t], spec.y[t + 1]
    g = spec.like(t + 1)
    if filt in ('cpf', 'cpfas'):
        return g[x]
    if filt == 'csiras':
        return spec.P(t, u)[xa, x] * g[x] / spec.q(t, u, y)[xa, x]
    return spec.P(t, u)[xa, x]


def check_initial(r, spec, filt, pt, ref, N, measured, ctx):
    pa = pt.traj[0].pa
    part = np.asarray(pa.part)
    if part.shape != (N, 2) or len(pa.w) != N:
        return r.fail('size:' + filt, 'initial approximation of shape %r' % (part.shape,), **ctx)
    if part[-1, 0] != ref[0].pa.part[0, 0] or part[-1, 1] != ref[0].pa.part[0, 1]:
        return r.fail('reference:' + filt, '%s: last initial particle %r is not the reference %r' % (filt, part[-1], ref[0].pa.part[0]), **ctx)
    x = steps.states_of(pa)
    want = np.asarray([spec.like(0)[i] if measured and filt != 'cpfyas' else 1.0 for i in x])
    W = hmm.nw(pa.w)
    if not np.max(np.abs(W - want / want.sum())) < 1e-9:
        return r.fail('weights:' + filt, '%s: initial weights %r, expected %r' % (filt, W, want / want.sum()), **ctx)
    return True


def f_initial(r, filt, N, S, variant, mode):
    """Initial approximation: with a measurement (mode 'y0'), or created by the first forward."""
    spec = hmm.Spec(S=S, T=2, variant=variant, y0=(mode == 'y0'))
    model = hmm.make_model(spec)
    st = seam.Stats()
    for x0 in range(S):
        ref = ref_traj([x0, 0])

        def body(c):
            pt = steps.new_pt(model, N, filt, 0.67, {'cond_traj': ref})
            if mode == 'y0':
                pt.measure(spec.y[0])
            else:
                pt.forward(spec.u[0], spec.y[1])
            return pt
        cnt = np.zeros(S)
        for p, ch, pt in seam.explore(body, stats=st, lazy=True):
            r.states += 1
            xs = steps.states_of(pt.traj[0].pa)
            for x in xs[:-1]:
                cnt[x] += p / (N - 1)
            r.outcome(xs)
            if not check_initial(r, spec, filt, pt, ref, N, mode == 'y0', dict(filter=filt, x0=x0, choices=ch)):
                r.add(st)
                return
        want = spec.p0() if filt != 'cpfyas' or mode != 'y0' else spec.qy(0, spec.y[0])
        if not np.max(np.abs(cnt - want)) < 1e-9:
            r.fail('initial:' + filt, '%s: law of the other initial particles %r, expected %r' % (filt, cnt, want), x0=x0)
            break
    r.add(st)
    r.sample(filter=filt, N=N, initial_law=list(cnt))


def f_step(r, filt, N, S, variant, k, missing=(), wpats=None):
    spec = hmm.Spec(S=S, T=k + 2, variant=variant, y0=True, missing=missing)
    model = hmm.make_model(spec)
    st = seam.Stats()
    P = spec.P(k, spec.u[k])
    for xr in itertools.product(range(S), repeat=2):        # reference at times k, k + 1
        ref = ref_traj([0] * k + list(xr))
        base = steps.prelude(spec, model, N, filt, k, 0.67, {'cond_traj': ref})
        for xo in itertools.product(range(S), repeat=N - 1):
            xs = tuple(xo) + (xr[0],)
            for w in steps.WPAT[N]:
                W = np.asarray(w, dtype=float) / sum(w)
                asw = W * P[list(xs), xr[1]]
                if filt != 'cpf':
                    if asw.sum() == 0:
                        continue
                    asw = asw / asw.sum()
                lin = [S * S + 3 * i for i in range(N)]
                ctx = dict(filter=filt, t=k, particles=xs, W=list(W), reference=xr)

                def body(c):
                    pt = steps.clone(base, model)
                    steps.seed_approximation(pt, spec, xs, w, 40.0)
                    for i in range(N):
                        pt.traj[-1].pa.part[i, 1] = lin[i]
                    pt.forward(spec.u[k], spec.y[k + 1])
                    return pt
                r.states += 1
                law = np.zeros(N)
                cnt = np.zeros(N)
                for p, ch, pt in seam.explore(body, stats=st, lazy=True):
                    step = pt.traj[-1]
                    part = np.asarray(step.pa.part)
                    anc = np.asarray(step.ancestors).astype(int)
                    ctx['choices'] = ch
                    if part.shape != (N, 2) or len(step.pa.w) != N or anc.shape != (N,):
                        return r.fail('size:' + filt, 'shapes %r %r' % (part.shape, anc.shape), **ctx)
                    if part[-1, 0] != xr[1] or part[-1, 1] != 5000.0 + k + 1:
                        return r.fail('reference:' + filt, '%s: last particle %r at t=%d is not the reference state %r'
                                      % (filt, part[-1], k + 1, ref[k + 1].pa.part[0]), **ctx)
                    if np.any(anc < 0) or np.any(anc >= N):
                        return r.fail('ancestors:' + filt, 'ancestors %r' % anc, **ctx)
                    if filt == 'cpf' and anc[-1] != N - 1:
                        return r.fail('ancestors:' + filt, 'cpf: ancestor of the reference particle is %d' % anc[-1], **ctx)
                    law[anc[-1]] += p
                    for a in anc[:-1]:
                        cnt[a] += p
                    xn = steps.states_of(step.pa)
                    if filt != 'cpfyas':
                        for i in range(N - 1):
                            if int(part[i, 1]) != lin[anc[i]] * S + xn[i]:
                                return r.fail('lineage:' + filt, '%s: particle %d was not propagated from its ancestor' % (filt, i), **ctx)
                    inc = np.asarray([increment(spec, filt, k, xs[anc[i]], xn[i]) for i in range(N)])
                    r.outcome((xn, tuple(anc)))
                    if inc.sum() == 0:
                        continue
                    got = hmm.nw(step.pa.w)
                    if not np.max(np.abs(got - inc / inc.sum())) < 1e-9:
                        return r.fail('weights:' + filt, '%s: weights %r, expected %r' % (filt, got, inc / inc.sum()), **ctx)
                ctx.pop('choices', None)
                if filt != 'cpf' and not np.max(np.abs(law - asw)) < 1e-9:
                    return r.fail('aslaw:' + filt, '%s: ancestor of the reference drawn with %r, exact %r' % (filt, list(law), list(asw)), **ctx)
                if not np.max(np.abs(cnt - (N - 1) * W)) < 1e-9:
                    return r.fail('selection:' + filt, '%s: mean number of offspring %r, exact %r' % (filt, list(cnt), list((N - 1) * W)), **ctx)
    r.add(st)
    r.sample(filter=filt, N=N, particles=xs, W=list(W), reference=xr, ancestor_law=list(law))


def f_run(r, filt, N, T, variant, y0, sim, dev=None, every=1):
    """Whole runs: the reference is there at every time (through the trajectory or the simulator)."""
    from pyparticleest.simulator import Simulator
    spec = hmm.Spec(S=2, T=T, variant=variant, y0=y0)
    model = hmm.make_model(spec)
    st = seam.Stats()
    for path in list(itertools.product(range(2), repeat=T))[::every]:
        ref = ref_traj(path)

        def body(c):
            if sim:
                s = Simulator(model, spec.u[:T - 1], spec.y if y0 else spec.y[1:])
                s.simulate(N, 0, filter=filt, filter_options={'cond_traj': ref}, smoother=None, meas_first=y0)
                return s.pt
            pt = steps.new_pt(model, N, filt, 0.67, {'cond_traj': ref})
            if y0:
                pt.measure(spec.y[0])
            for t in range(T - 1):
                pt.forward(spec.u[t], spec.y[t + 1])
            return pt
        for p, ch, pt in seam.explore(body, stats=st, lazy=True, dev=dev):
            r.states += 1
            ctx = dict(filter=filt, reference=path, choices=ch)
            if len(pt.traj) != T:
                return r.fail('length', '%d steps' % len(pt.traj), **ctx)
            if not check_initial(r, spec, filt, pt, ref, N, y0, ctx):
                return
            for t in range(1, T):
                part = np.asarray(pt.traj[t].pa.part)
                if part[-1, 0] != path[t] or part[-1, 1] != 5000.0 + t:
                    return r.fail('reference:' + filt, '%s: last particle of t=%d is %r' % (filt, t, part[-1]), **ctx)
                if filt == 'cpf' and int(pt.traj[t].ancestors[-1]) != N - 1:
                    return r.fail('ancestors:cpf', 'reference ancestor at t=%d is %r' % (t, pt.traj[t].ancestors[-1]), **ctx)
        for t in range(T):
            if ref[t].pa.part[0, 0] != path[t] or ref[t].pa.part[0, 1] != 5000.0 + t:
                return r.fail('mutates:' + filt, 'the reference trajectory was modified at t=%d' % t, filter=filt)
    r.add(st)
    r.sample(filter=filt, N=N, T=T, executions=st.executions)


def tasks():
    out = []
    for filt in FILTERS:
        for v in ((0, 1, 2) if not THOROUGH else range(6)):
            for k in ((0, 1) if not THOROUGH else (0, 1, 2)):
                out.append(('f_step', dict(filt=filt, N=2, S=2, variant=v, k=k)))
                if THOROUGH or k != v:
                    out.append(('f_step', dict(filt=filt, N=3, S=2, variant=v, k=k)))
                if THOROUGH or v == k:
                    out.append(('f_step', dict(filt=filt, N=2, S=3, variant=v, k=k)))
            for mode in ('y0', 'forward'):
                out.append(('f_initial', dict(filt=filt, N=2, S=2, variant=v, mode=mode)))
                out.append(('f_initial', dict(filt=filt, N=3, S=2, variant=v, mode=mode)))
        for y0 in (True, False):
            for sim in (True, False):
                out.append(('f_run', dict(filt=filt, N=2, T=3 if THOROUGH or (sim and y0 and filt in ('cpfyas', 'cpf')) else 2, variant=1, y0=y0, sim=sim)))
    return out[::-1]
