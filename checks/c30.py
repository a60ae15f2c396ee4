"""C30: non-Markovian models: every particle is weighted, propagated and smoothed with its own history."""
import itertools
import numpy as np
from lib import seam, hmm, nm, steps, smooth
from lib.env import THOROUGH

CONFS = ('pure',)
TOL = 1e-9
S = nm.S


def increments(spec, filt, pt, t, resampled):
    """Unnormalised weights of the step t -> t + 1 of a correct filter."""
    W = hmm.nw(pt.traj[t].pa.w)
    N = len(W)
    step = pt.traj[t + 1]
    anc = [int(a) for a in step.ancestors]
    xn = nm.st(step.pa.part)
    xs = nm.st(pt.traj[t].pa.part)
    out = np.empty(len(xn))
    y, u = spec.y[t + 1], spec.u[t]
    for i in range(len(xn)):
        h = nm.history(pt, t, anc[i])
        w = 1.0 / N if resampled else W[i]
        like = spec.like(t + 1, h[-1], xn[i])
        if filt == 'apf' and y is not None:
            a = spec.first_stage(t, u, y)
            out[i] = sum(W[j] * a[xs[j]] for j in range(N)) / N * like / a[h[-1]] if resampled else W[i] * like
        elif filt == 'pfy':
            g = sum(spec.g(t + 1, y, 0, None, b) for b in range(S))
            out[i] = w * spec.tr(t, u, None if t == 0 else h[-2], h[-1])[xn[i]] * g
        else:
            out[i] = w * like
    return out


def f_filter(r, filt, N, T, variant, res, y0=True, missing=(), late=False):
    """Whole runs: the weighted genealogies estimate the unnormalised law of the path without bias.

    late: measurements are not handed to forward but to measure afterwards."""
    spec = nm.Spec(T, variant, y0=y0, missing=missing, gprev=filt != 'pfy')
    model = nm.make_model(spec)
    stats = seam.Stats()
    est = [{} for _ in range(T)]

    def body(c):
        pt = steps.new_pt(model, N, filt, res)
        flags = []
        if spec.y[0] is not None:
            pt.measure(spec.y[0])
        for t in range(T - 1):
            if late:
                flags.append(pt.forward(spec.u[t], None))
                if spec.y[t + 1] is not None:
                    pt.measure(spec.y[t + 1])
            else:
                flags.append(pt.forward(spec.u[t], spec.y[t + 1]))
        return pt, flags
    cells = seam.make_cells((), 3)
    for p, ch, (pt, flags) in seam.explore(body, cells=cells, stats=stats, lazy=True):
        x0 = nm.st(pt.traj[0].pa.part)
        if filt == 'pfy':
            z = sum(spec.g(0, spec.y[0], 0, None, b) for b in range(S))
        else:
            z = float(np.mean([spec.like(0, None, x) for x in x0]))
        for t in range(T):
            if t:
                inc = increments(spec, filt, pt, t - 1, flags[t - 1])
                z *= inc.sum()
            W = hmm.nw(pt.traj[t].pa.w)
            for i in range(N):
                h = nm.history(pt, t, i)
                est[t][h] = est[t].get(h, 0.0) + p * z * W[i]
        r.outcome((tuple(x0), tuple(flags)))
        r.states += T
    r.add(stats)
    for t in range(T):
        ex = {}
        for h in itertools.product(range(S), repeat=t + 1):
            w = spec.path_weight(h)
            if filt == 'pfy':
                w = w / spec.p0()[h[0]]
            ex[h] = w
        if not smooth.dist(est[t], ex) <= TOL * max(1.0, sum(ex.values())):
            return r.fail('filter:' + filt, '%s N=%d: expectation of the weighted genealogies at t=%d %r, exact %r' % (filt, N, t, est[t], ex),
                          res=res, missing=missing, late=late)
    r.sample(filter=filt, N=N, T=T, estimate={repr(k): v for k, v in est[-1].items()})


def f_late(r, N, variant):
    """measure after forward gives the same approximation as forward with the measurement."""
    T = 3
    spec = nm.Spec(T, variant)
    model = nm.make_model(spec)
    stats = seam.Stats()

    def body(c, late):
        pt = steps.new_pt(model, N, 'pf', 0.0)
        pt.measure(spec.y[0])
        for t in range(T - 1):
            if late:
                pt.forward(spec.u[t], None)
                pt.measure(spec.y[t + 1])
            else:
                pt.forward(spec.u[t], spec.y[t + 1])
        return pt
    a = [(p, pt) for p, ch, pt in seam.explore(lambda c: body(c, False), stats=stats)]
    b = [(p, pt) for p, ch, pt in seam.explore(lambda c: body(c, True), stats=stats)]
    r.add(stats)
    r.outcome('late')
    if len(a) != len(b):
        return r.fail('late', '%d executions instead of %d' % (len(b), len(a)))
    for (p, x), (q, y) in zip(a, b):
        r.states += 1
        for t in range(T):
            if nm.st(x.traj[t].pa.part) != nm.st(y.traj[t].pa.part) or not np.max(np.abs(hmm.nw(x.traj[t].pa.w) - hmm.nw(y.traj[t].pa.w))) < 1e-9:
                return r.fail('late', 'weights %r at t=%d when measured after the step, %r otherwise'
                              % (hmm.nw(y.traj[t].pa.w), t, hmm.nw(x.traj[t].pa.w)))


def base_pt(spec, model, N):
    c = seam.Controller(cells=seam.make_cells((), 3))
    with seam.active(c):
        pt = steps.new_pt(model, N, 'pf', 0.0)
        if spec.y[0] is not None:
            pt.measure(spec.y[0])
        for t in range(spec.T - 1):
            pt.forward(spec.u[t], spec.y[t + 1])
    return pt


def well(s, spec, M):
    if len(s.traj) != spec.T or len(s) != spec.T:
        return 'trajectory has %d steps' % len(s.traj)
    for t, x in enumerate(s.traj):
        p = np.asarray(x.pa.part)
        if p.shape != (M, 4) or np.any(np.isnan(p)):
            return 'particles of step %d: %r' % (t, p)
    return None


def lines_of(s, T, M):
    P = [np.asarray(x.pa.part) for x in s.traj]
    return ([tuple(int(round(P[t][m, 1])) - 10 - 100 * t for t in range(T)) for m in range(M)],
            [tuple(int(round(P[t][m, 0])) for t in range(T)) for m in range(M)])


def links(s, pt, spec, M, method):
    """sample_smooth was handed each particle's own ancestor and its own future."""
    P = [np.asarray(x.pa.part) for x in s.traj]
    for t in range(spec.T):
        for m in range(M):
            want = P[t + 1][m, 1] if t + 1 < spec.T else -1
            if P[t][m, 3] != want:
                return 'trajectory %d, t=%d: future handed to sample_smooth %r, its own is %r' % (m, t, P[t][m, 3], want)
            i = int(P[t][m, 1]) - 10 - 100 * t
            want = -1
            if t:
                want = pt.traj[t - 1].pa.part[int(pt.traj[t].ancestors[i]), 1]
            if P[t][m, 2] != want:
                return 'trajectory %d, t=%d: ancestor handed to sample_smooth %r, its own is %r' % (m, t, P[t][m, 2], want)
    return None


def backward_law(spec, pt, xs, ws):
    T = spec.T
    law = {(i,): w / float(sum(ws[-1])) for i, w in enumerate(ws[-1]) if w > 0}
    for t in range(T - 2, -1, -1):
        new = {}
        for path, p in law.items():
            fut = [xs[t + 1 + k][i] for k, i in enumerate(path)]
            k = np.asarray([ws[t][i] * spec.future(t, None if t == 0 else nm.history(pt, t, i)[-2], xs[t][i], fut) for i in range(len(xs[t]))])
            for i in range(len(k)):
                if k[i] > 0:
                    new[(i,) + path] = p * k[i] / k.sum()
        law = new
    return law


def ancestor_law(pt, ws, T):
    law = {}
    for i, w in enumerate(ws[-1]):
        if w > 0:
            ln = [i]
            for t in range(T - 1, 0, -1):
                ln.append(int(pt.traj[t].ancestors[ln[-1]]))
            law[tuple(ln[::-1])] = w / float(sum(ws[-1]))
    return law


def f_back(r, method, opts, T, N, M, variant, every=1, slack=0.0, missing=()):
    """Backward simulation from chosen approximations, all ancestor maps: exact law of the indices."""
    spec = nm.Spec(T, variant, missing=missing)
    model = nm.make_model(spec)
    model.slack = slack
    pt = base_pt(spec, model, N)
    stats = seam.Stats()
    W = steps.WPAT[N]
    k = variant
    for ancs in itertools.product(itertools.product(range(N), repeat=N), repeat=T - 1):
        for xs in itertools.product(itertools.product(range(S), repeat=N), repeat=T):
            k += 1
            if k % every:
                continue
            ws = [W[(k // every + 2 * t + k // 7) % len(W)] for t in range(T)]
            nm.set_approx(pt, xs, ws, [list(range(N))] + [list(a) for a in ancs], lambda t: 50.0 * t)
            law = ancestor_law(pt, ws, T) if method == 'ancestor' else backward_law(spec, pt, xs, ws)
            got = {}
            cond = {}
            ctx = dict(method=method, opts=opts, xs=xs, ws=ws, ancs=ancs, M=M)
            for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, method, None if opts is None else dict(opts)), stats=stats, lazy=True):
                b = well(s, spec, M) or links(s, pt, spec, M, method)
                if b:
                    r.add(stats)
                    return r.fail('links:' + method, '%s: %s' % (method, b), choices=ch, **ctx)
                ln, sts = lines_of(s, T, M)
                for l, x in zip(ln, sts):
                    if tuple(xs[t][i] for t, i in enumerate(l)) != x:
                        r.add(stats)
                        return r.fail('foreign:' + method, '%s returned states %r for particles %r' % (method, x, l), choices=ch, **ctx)
                    got[l] = got.get(l, 0.0) + p / M
                if M > 1:
                    e = tuple(l[-1] for l in ln)
                    for m, l in enumerate(ln):
                        c = cond.setdefault((e, m), {})
                        c[l] = c.get(l, 0.0) + p
                r.outcome(repr(ln))
            r.states += 1
            if not smooth.dist(got, law) <= TOL:
                r.add(stats)
                return r.fail('law:' + method, '%s(%r): law of trajectories %r, exact %r' % (method, opts, got, law), **ctx)
            for (e, m), c in cond.items():
                tot = sum(c.values())
                ex = {l: v for l, v in law.items() if l[-1] == e[m]}
                te = sum(ex.values())
                if tot > 1e-12 and not smooth.dist({l: v / tot for l, v in c.items()}, {l: v / te for l, v in ex.items()}) <= 1e-7:
                    r.add(stats)
                    return r.fail('joint:' + method, '%s(%r): trajectory %d with ends %r: %r, exact %r' % (method, opts, m, e, c, ex), **ctx)
    r.add(stats)
    r.sample(method=method, N=N, T=T, M=M, law={repr(a): b for a, b in law.items()})


def f_lines(r, method, opts, T, M, variant, missing=(), y0=True):
    """All state paths as genealogies with exact weights: the MCMC smoothers keep the exact smoothing law."""
    spec = nm.Spec(T, variant, missing=missing, y0=y0)
    model = nm.make_model(spec)
    paths = list(itertools.product(range(S), repeat=T))
    N = len(paths)
    pt = base_pt(spec, model, N)
    perms = [[(k * (2 * t + 1) + t) % N for k in range(N)] for t in range(T)]
    pos = [{ln: k for k, ln in enumerate(p)} for p in perms]
    xs = [[paths[ln][t] for ln in perms[t]] for t in range(T)]
    ws = [[spec.path_weight(paths[ln][:t + 1]) for ln in perms[t]] for t in range(T)]
    ancs = [list(range(N))] + [[pos[t - 1][ln] for ln in perms[t]] for t in range(1, T)]
    nm.set_approx(pt, xs, ws, ancs)
    stats = seam.Stats()
    exact = spec.joint()
    got = {}
    for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, method, None if opts is None else dict(opts)), stats=stats, lazy=True):
        b = well(s, spec, M)
        if b:
            r.add(stats)
            return r.fail('shape:' + method, b, choices=ch)
        for x in lines_of(s, T, M)[1]:
            got[x] = got.get(x, 0.0) + p / M
        r.outcome(repr(lines_of(s, T, M)[1]))
    r.add(stats)
    r.states += len(got)
    if not smooth.dist(got, exact) <= TOL:
        return r.fail('law:' + method, '%s(%r) M=%d: law of trajectories %r, exact %r' % (method, opts, M, got, exact), missing=missing)
    r.sample(method=method, T=T, M=M, law={repr(a): b for a, b in got.items()})


def ref(xs):
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    out = np.empty((len(xs),), dtype=object)
    for t, x in enumerate(xs):
        out[t] = TrajectoryStep(ParticleApproximation(np.asarray([[float(x), 5000.0 + t, -1.0, -1.0]])), np.arange(1))
    return out


def f_cpf(r, T, variant, y0=True, missing=()):
    """The conditional particle filter followed by a draw of one genealogy keeps the exact law."""
    spec = nm.Spec(T, variant, y0=y0, missing=missing)
    model = nm.make_model(spec)
    stats = seam.Stats()
    exact = spec.joint()
    got = {}
    for path, pr in exact.items():
        def body(c):
            pt = steps.new_pt(model, 2, 'cpf', 0.67, {'cond_traj': ref(path)})
            if spec.y[0] is not None:
                pt.measure(spec.y[0])
            for t in range(T - 1):
                pt.forward(spec.u[t], spec.y[t + 1])
            return pt
        for p, ch, pt in seam.explore(body, stats=stats, lazy=True):
            W = hmm.nw(pt.traj[-1].pa.w)
            if nm.history(pt, T - 1, 1) != path:
                r.add(stats)
                return r.fail('reference', 'the last genealogy %r is not the reference %r' % (nm.history(pt, T - 1, 1), path), choices=ch)
            for i in range(2):
                h = nm.history(pt, T - 1, i)
                got[h] = got.get(h, 0.0) + pr * p * W[i]
            r.states += 1
    r.add(stats)
    r.outcome('cpf')
    if not smooth.dist(got, exact) <= TOL:
        return r.fail('law:cpf', 'law after one conditional filter %r, exact %r' % (got, exact))


def f_cstep(r, filt, variant, missing=(), gprev=False):
    """Last step of the filters with ancestor sampling, from every approximation: the law of
    (ancestor, state) given the approximation of the past is kept.  Ancestors are drawn with the
    transition density only, so the law is that of models whose likelihood looks at the current state
    (gprev=False); the weights are right for the others too."""
    T = 3
    spec = nm.Spec(T, variant, missing=missing, gprev=gprev)
    model = nm.make_model(spec)
    stats = seam.Stats()
    W = steps.WPAT[2]
    N = 2
    for x0, x1 in itertools.product(itertools.product(range(S), repeat=N), repeat=2):
        for anc in itertools.product(range(N), repeat=N):
            for w in W[:4]:
                w = np.asarray(w, dtype=float) / sum(w)
                trans = np.asarray([spec.tr(1, spec.u[1], x0[anc[i]], x1[i]) for i in range(N)])
                if filt == 'cpfyas':
                    lk = np.asarray([[spec.g(2, spec.y[2], 0, None, b) for b in range(S)]] * N)
                else:
                    lk = np.asarray([[spec.like(2, x1[i], b) for b in range(S)] for i in range(N)])
                pi = w.reshape(-1, 1) * trans * lk
                pi /= pi.sum()
                got = np.zeros((N, S))
                for xr in range(S):
                    pr = pi[:, xr].sum()
                    asw = w * trans[:, xr]
                    asw = asw / asw.sum()
                    rf = ref([x0[1], x1[1], xr])
                    law = np.zeros(N)

                    def body(c):
                        pt = steps.new_pt(model, N, filt, 0.67, {'cond_traj': rf})
                        with seam.active(seam.Controller(cells=seam.make_cells((), 3))):
                            pt.measure(spec.y[0])
                            pt.forward(spec.u[0], spec.y[1])
                        nm.set_approx(pt, [x0, x1], [[1, 1], w], [[0, 1], anc])
                        pt.forward(spec.u[1], spec.y[2])
                        return pt
                    for p, ch, pt in seam.explore(body, stats=stats, lazy=True):
                        a = [int(k) for k in pt.traj[2].ancestors]
                        xn = nm.st(pt.traj[2].pa.part)
                        if xn[-1] != xr:
                            r.add(stats)
                            return r.fail('reference:' + filt, 'last particle %r is not the reference' % (xn,), choices=ch)
                        Wn = hmm.nw(pt.traj[2].pa.w)
                        law[a[-1]] += p
                        for i in range(N):
                            got[a[i], xn[i]] += pr * p * Wn[i]
                        inc = np.asarray([trans[a[i], xn[i]] if filt == 'cpfyas' else lk[a[i], xn[i]] for i in range(N)])
                        if not np.max(np.abs(Wn - inc / inc.sum())) < 1e-9:
                            r.add(stats)
                            return r.fail('weights:' + filt, '%s: weights %r of particles %r with ancestors %r, exact %r' % (filt, Wn, xn, a, inc / inc.sum()),
                                          x0=x0, x1=x1, anc=anc, w=list(w))
                    r.states += 1
                    if not np.max(np.abs(law - asw)) < 1e-9:
                        r.add(stats)
                        return r.fail('aslaw:' + filt, '%s: ancestor of the reference drawn with %r, exact %r' % (filt, law, asw), x0=x0, x1=x1, anc=anc, w=list(w))
                if not gprev and not np.max(np.abs(got - pi)) <= 1e-9:
                    r.add(stats)
                    return r.fail('law:' + filt, '%s: law of (ancestor, state) %r, exact %r' % (filt, got, pi), x0=x0, x1=x1, anc=anc, w=list(w))
    r.add(stats)
    r.outcome(filt)
    r.sample(filter=filt, law=got.tolist())


RSAS = [None, {'ratio': 0.3}, {'x1': 2.0, 'P1': 0.01, 'ratio': 1.5}]


def f_long(r, filt, method, opts, T, N, M, variant, seeds, missing=()):
    """Long histories and many particles along fixed schedules: the model verifies everything it is
    handed, the returned trajectories name the right predecessors and successors."""
    spec = nm.Spec(T, variant, missing=missing, gprev=filt != 'pfy')
    model = nm.make_model(spec)
    stats = seam.Stats()
    if method in ('rs', 'rsas'):
        # the best transition of a whole future cannot be enumerated: a bound of each factor
        model.logp_xnext_max_full = lambda part, past_trajs, pind, uvec, yvec, tvec, cur_ind: (T - 1 - cur_ind) * np.log(0.75 * 5.0)

    def body(c):
        pt = steps.new_pt(model, N, filt, 0.67)
        if spec.y[0] is not None:
            pt.measure(spec.y[0])
        for t in range(T - 1):
            pt.forward(spec.u[t], spec.y[t + 1])
        for t in range(T):
            for i in range(N):
                pt.traj[t].pa.part[i, 1] = 100 * t + i + 10
        return pt, pt.perform_smoothing(M, method, None if opts is None else dict(opts))
    for p, ch, (pt, s) in seam.explore(body, cells=seam.make_cells((), 3), stats=stats, dev=seeds):
        ctx = dict(filter=filt, method=method, T=T, N=N, M=M, schedule=ch.seed)
        P = [np.asarray(x.pa.part) for x in s.traj]
        r.states += 1
        if len(P) != T or any(q.shape != (M, 4) for q in P):
            return r.fail('shape', '%d steps of shapes %r' % (len(P), [q.shape for q in P]), **ctx)
        for t in range(T):
            for j in range(M):
                if t + 1 < T and P[t][j, 3] != P[t + 1][j, 1]:
                    return r.fail('future', 'sample_smooth at t=%d of trajectory %d was handed the future of another trajectory' % (t, j), **ctx)
                k = int(P[t][j, 1])
                if k < 0 and method in ('mhips', 'mhips_reduced', 'mhbp'):
                    continue                    # proposed by the sampler
                i = k - 100 * t - 10
                if not 0 <= i < N or P[t][j, 0] != pt.traj[t].pa.part[i, 0]:
                    return r.fail('particle', 'state %r at t=%d of trajectory %d is no particle of that time' % (P[t][j].tolist(), t, j), **ctx)
                if t and method in ('full', 'rs', 'rsas', 'mcmc', 'ancestor'):
                    want = 100 * (t - 1) + int(pt.traj[t].ancestors[i]) + 10
                    if P[t][j, 2] != want:
                        return r.fail('ancestor', 'sample_smooth at t=%d of trajectory %d was handed ancestor %r instead of %r' % (t, j, P[t][j, 2], want), **ctx)
        r.outcome(tuple(P[0][:, 1]))
    r.add(stats)
    r.sample(filter=filt, method=method, T=T, N=N, M=M)


def tasks():
    out = []
    V = (0, 1, 2) if not THOROUGH else range(6)
    for v in V:
        for filt in ('pf', 'apf', 'pfy'):
            for res in (0.0, 0.67, 1.0):
                out.append(('f_filter', dict(filt=filt, N=2, T=3, variant=v, res=res)))
                out.append(('f_filter', dict(filt=filt, N=1, T=4, variant=v, res=res)))
                if filt != 'pfy':
                    out.append(('f_filter', dict(filt=filt, N=2, T=3, variant=v, res=res, y0=False)))
                    out.append(('f_filter', dict(filt=filt, N=2, T=3, variant=v, res=res, missing=(1,))))
                    out.append(('f_filter', dict(filt=filt, N=2, T=3, variant=v, res=res, missing=(2,))))
                if THOROUGH:
                    out.append(('f_filter', dict(filt=filt, N=2, T=4, variant=v, res=res)))
        for res in (0.0, 0.67):
            out.append(('f_filter', dict(filt='pf', N=2, T=3, variant=v, res=res, late=True)))
        out.append(('f_late', dict(N=2, variant=v)))
        for m, o in (('full', None), ('ancestor', None)):
            out.append(('f_back', dict(method=m, opts=o, T=3, N=2, M=1, variant=v, every=5)))
            out.append(('f_back', dict(method=m, opts=o, T=3, N=2, M=2, variant=v, every=17)))
            out.append(('f_back', dict(method=m, opts=o, T=4, N=2, M=1, variant=v, every=1009)))
            out.append(('f_back', dict(method=m, opts=o, T=3, N=2, M=1, variant=v, every=17, missing=(1, 2))))
        for R in (0, 1, 2):
            out.append(('f_back', dict(method='rs', opts={'R': R}, T=3, N=2, M=1, variant=v, every=41 if not THOROUGH else 7, slack=0.4 if v == 1 else 0.0)))
            out.append(('f_back', dict(method='rs', opts={'R': min(R, 1)}, T=3, N=2, M=2, variant=v, every=251 if not THOROUGH else 31)))
        for o in RSAS:
            out.append(('f_back', dict(method='rsas', opts=o, T=3, N=2, M=1, variant=v, every=101 if not THOROUGH else 17)))
        for m in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp'):
            out.append(('f_lines', dict(method=m, opts={'R': 1}, T=3, M=1, variant=v)))
            out.append(('f_lines', dict(method=m, opts={'R': 1}, T=2, M=2, variant=v)))
            out.append(('f_lines', dict(method=m, opts={'R': 1}, T=3, M=1, variant=v, missing=(1,))))
            out.append(('f_lines', dict(method=m, opts={'R': 1}, T=3, M=1, variant=v, missing=(2,), y0=False)))
            out.append(('f_lines', dict(method=m, opts={'R': 2}, T=2, M=1, variant=v)))
        out.append(('f_cpf', dict(T=3, variant=v)))
        out.append(('f_cpf', dict(T=3, variant=v, y0=False, missing=(2,))))
        if THOROUGH:
            out.append(('f_cpf', dict(T=4, variant=v)))
        for filt in ('cpfas', 'cpfyas'):
            out.append(('f_cstep', dict(filt=filt, variant=v)))
        out.append(('f_cstep', dict(filt='cpfas', variant=v, gprev=True)))
        out.append(('f_cstep', dict(filt='cpfas', variant=v, missing=(2,))))
    k = 0
    for filt in ('pf', 'apf', 'pfy'):
        for m, o in (('full', None), ('rs', {'R': 3}), ('rsas', None), ('mcmc', {'R': 2}), ('mhips', {'R': 2}), ('mhips_reduced', {'R': 2}), ('mhbp', {'R': 2}),
                     ('ancestor', None), ('mcmc', None)):
            k += 1
            out.append(('f_long', dict(filt=filt, method=m, opts=o, T=(9, 7, 12)[k % 3], N=(5, 12, 8)[k % 3], M=(6, 3, 10)[k % 3], variant=k % 5,
                                       seeds=list(range(6 if not THOROUGH else 30)), missing=((), (3,), (5, 6))[k % 3] if filt != 'pfy' else ())))
    return out[::-1]
