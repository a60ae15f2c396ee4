"""C10: the law of backward simulation (full, rs, rsas), by enumeration of all random outcomes."""
import itertools
import numpy as np
from lib import seam, hmm, steps, smooth
from lib.env import THOROUGH

CONFS = ('pure',)
TOL = 1e-9


def judge_law(r, spec, model, pt, method, opts, M, law, ctx, stats, limit=None):
    snap = smooth.snapshot(pt)
    got = {}
    cond = {}
    joint = {}
    for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, method, None if opts is None else dict(opts)), stats=stats, lazy=True, limit=limit):
        b = smooth.wellformed(s, spec, M)
        if b:
            return r.fail('shape:' + method, '%s: %s' % (method, b), choices=ch, **ctx)
        lines, states = smooth.ids(s)
        for ln, st in zip(lines, states):
            if any(i < 0 or i >= len(ctx['xs'][t]) for t, i in enumerate(ln)) or tuple(ctx['xs'][t][i] for t, i in enumerate(ln)) != st:
                return r.fail('foreign:' + method, '%s returned a state that is no filter particle: %r %r' % (method, ln, st), choices=ch, **ctx)
            got[ln] = got.get(ln, 0.0) + p / M
        # law of trajectory m given where all trajectories end: depends on its own end only
        if M > 1:
            ends = tuple(ln[-1] for ln in lines)
            for m, ln in enumerate(lines):
                c = cond.setdefault((ends, m), {})
                c[ln] = c.get(ln, 0.0) + p
            if method == 'full':
                c = joint.setdefault(ends, {})
                c[tuple(lines)] = c.get(tuple(lines), 0.0) + p
        r.outcome((tuple(lines)))
    if not smooth.same(snap, smooth.snapshot(pt)):
        return r.fail('history:' + method, '%s changed the filter history' % method, **ctx)
    r.states += 1
    d = smooth.dist(got, law)
    if not d <= TOL:
        return r.fail('law:' + method, '%s(%r) M=%d: law of trajectories %r, exact %r' % (method, opts, M, got, law), **ctx)
    for (ends, m), c in cond.items():
        tot = sum(c.values())
        if tot < 1e-12:
            continue
        ex = {ln: v for ln, v in law.items() if ln[-1] == ends[m]}
        te = sum(ex.values())
        if not te > 0:
            return r.fail('law:' + method, '%s: trajectory %d ends in %r of probability zero' % (method, m, ends), **ctx)
        d = smooth.dist({k: v / tot for k, v in c.items()}, {k: v / te for k, v in ex.items()})
        if not d <= 1e-7:
            return r.fail('joint:' + method, '%s(%r) M=%d: law of trajectory %d when the trajectories end in %r is %r, exact %r'
                          % (method, opts, M, m, ends, c, ex), **ctx)
    # full: given where they end, the trajectories are drawn independently of each other
    for ends, c in joint.items():
        tot = sum(c.values())
        if tot < 1e-12:
            continue
        ex = {(): 1.0}
        for e in ends:
            one = {ln: v for ln, v in law.items() if ln[-1] == e}
            z = sum(one.values())
            ex = {k + (ln,): p * v / z for k, p in ex.items() for ln, v in one.items()}
        d = smooth.dist({k: v / tot for k, v in c.items()}, ex)
        if not d <= 1e-7:
            return r.fail('independent:' + method, '%s M=%d: joint law of the trajectories given their ends %r is %r, independent draws give %r'
                          % (method, M, ends, c, ex), **ctx)
    r.sample(method=method, M=M, T=spec.T, law={repr(k): v for k, v in law.items()})
    return True


def f_bs(r, method, opts, T, N, S, M, variant, wsel, slack=0.0, missing=(), every=1, offs=False, tv=False, sharp=None, wpat=None):
    spec = hmm.Spec(S=S, T=T, variant=variant, y0=True, missing=missing, sharp=sharp)
    if tv:
        # transition kernels known up to a factor that differs between time steps: the bound is per step
        spec.scale = dict(spec.scale, xnext=lambda t: (0.0, 2.0, -1.5, 0.7)[t % 4])
    model = hmm.make_model(spec)
    model.slack = slack
    pt = smooth.base_pt(spec, model, N)
    W = steps.WPAT[N] if wpat is None else [tuple(w) for w in wpat]
    stats = seam.Stats()
    k = -1
    for xs in itertools.product(itertools.product(range(S), repeat=N), repeat=T):
        for ws in ([[W[(wsel + 2 * t) % len(W)] for t in range(T)]] if wsel >= 0 else itertools.product(W, repeat=T)):
            k += 1
            if (k + variant) % every:
                continue
            law = smooth.backward_law(spec, xs, ws)
            if law is None:
                continue
            anc = [[(i + t) % N for i in range(N)] for t in range(T)]
            smooth.set_approx(pt, xs, ws, anc, (lambda t: 700.0 * (-1) ** t) if offs else None)
            if not judge_law(r, spec, model, pt, method, opts, M, law, dict(xs=xs, ws=ws, opts=opts, M=M, method=method), stats):
                r.add(stats)
                return
    r.add(stats)


def f_unique(r, method, opts, N, M, T, variant, seeds):
    """Sizes beyond enumeration: with one possible predecessor per particle, every schedule must
    return exactly the chain of predecessors (fixed schedules)."""
    spec = hmm.Ring(S=N, T=T, variant=variant)
    model = hmm.make_model(spec)
    with np.errstate(divide='ignore'):
        pt = smooth.base_pt(spec, model, N)
        rot = [(7 * t + variant) % N for t in range(T)]
        xs = [[(3 * i + rot[t]) % N if N % 3 else (i + rot[t]) % N for i in range(N)] for t in range(T)]
        pred = [None] + [[xs[t - 1].index((xs[t][i] - spec.shift(t - 1, spec.u[t - 1])) % N) for i in range(N)] for t in range(1, T)]
        ws = [[1 + (i * (t + 2) + variant) % 5 for i in range(N)] for t in range(T)]
        smooth.set_approx(pt, xs, ws, [list(range(N))] + pred[1:], lambda t: 300.0 - 500.0 * t)
        stats = seam.Stats()
        snap = smooth.snapshot(pt)
        for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, method, None if opts is None else dict(opts)), stats=stats, dev=seeds):
            r.states += 1
            ctx = dict(method=method, opts=opts, N=N, M=M, T=T, schedule=ch.seed)
            b = smooth.wellformed(s, spec, M)
            if b:
                return r.fail('shape:' + method, '%s: %s' % (method, b), **ctx)
            lines, states = smooth.ids(s)
            for ln, xx in zip(lines, states):
                want = [ln[-1]]
                for t in range(T - 1, 0, -1):
                    want.append(pred[t][want[-1]] if 0 <= want[-1] < N else -1)
                want = tuple(reversed(want))
                if want != ln or xx != tuple(xs[t][i] for t, i in enumerate(ln)):
                    return r.fail('law:' + method, '%s returned the particles %r, the only possible chain is %r' % (method, ln, want), **ctx)
            if not smooth.same(snap, smooth.snapshot(pt)):
                return r.fail('history:' + method, '%s changed the filter history' % method, **ctx)
            r.outcome(tuple(sorted(lines)))
    r.add(stats)
    r.sample(method=method, N=N, M=M, T=T, lines=lines[:3])


RSAS = [None, {'x1': 0.0}, {'ratio': 0.3}, {'sv': 0.1, 'sw': 0.5, 'ratio': 0.8}, {'x1': 2.0, 'P1': 0.01, 'ratio': 1.5},
        {'sv': 0.0, 'P1': 0.5, 'x1': 0.6}]


def tasks():
    out = []
    for k, (N, M, T) in enumerate(((25, 40, 4), (40, 25, 6), (13, 13, 9), (5, 60, 5), (60, 3, 4))):
        for m, o in (('full', None), ('rs', {'R': 3}), ('rs', {'R': 100}), ('rsas', None), ('rsas', {'x1': 0.0})):
            out.append(('f_unique', dict(method=m, opts=o, N=N, M=M, T=T, variant=k, seeds=list(range(2 if not THOROUGH else 10)))))
    for v in ((0, 1, 2) if not THOROUGH else range(6)):
        out.append(('f_bs', dict(method='full', opts=None, T=2, N=2, S=2, M=1, variant=v, wsel=-1)))
        for M in (2, 3):
            out.append(('f_bs', dict(method='full', opts=None, T=2, N=2, S=2, M=M, variant=v, wsel=v)))
        out.append(('f_bs', dict(method='full', opts={'R': 1}, T=3, N=2, S=2, M=1, variant=v, wsel=v)))
        out.append(('f_bs', dict(method='full', opts={}, T=4, N=2, S=2, M=1, variant=v, wsel=v + 1, every=2)))
        out.append(('f_bs', dict(method='full', opts={}, T=3, N=3, S=2, M=1, variant=v, wsel=v + 1, every=3)))
        out.append(('f_bs', dict(method='full', opts={}, T=3, N=2, S=3, M=1, variant=v, wsel=v + 1, every=4)))
        for R in (0, 1, 2, 3, None):
            o = None if R is None else {'R': R}
            out.append(('f_bs', dict(method='rs', opts=o, T=2, N=2, S=2, M=1, variant=v, wsel=v, slack=0.0 if v != 1 else 0.7)))
            out.append(('f_bs', dict(method='rs', opts=o, T=3, N=2, S=2, M=1, variant=v, wsel=v + 1, every=3 if R != 3 else 7)))
            if R in (1, 2):
                out.append(('f_bs', dict(method='rs', opts=o, T=2, N=2, S=2, M=2, variant=v, wsel=-1, every=3)))
                if R == 1:
                    out.append(('f_bs', dict(method='rs', opts=o, T=3, N=2, S=2, M=2, variant=v, wsel=-1, every=(1001 if not THOROUGH else 97))))
        out.append(('f_bs', dict(method='rs', opts={'R': 2}, T=2, N=3, S=2, M=1, variant=v, wsel=v + 2, every=2)))
        out.append(('f_bs', dict(method='rs', opts={'R': 1}, T=2, N=2, S=2, M=3, variant=v, wsel=v + 2, every=3, offs=True)))
        out.append(('f_bs', dict(method='rs', opts={'R': 1}, T=3, N=2, S=2, M=1, variant=v, wsel=v, every=3, tv=True)))
        out.append(('f_bs', dict(method='rsas', opts=None, T=3, N=2, S=2, M=1, variant=v, wsel=v, every=7, tv=True)))
        out.append(('f_bs', dict(method='full', opts={}, T=3, N=2, S=2, M=2, variant=v, wsel=v, every=9, tv=True)))
        # densities that differ by orders of magnitude between the particles
        for m, o in (('full', {}), ('rs', {'R': 1}), ('rs', {'R': 3}), ('rsas', None), ('rsas', {'ratio': 0.3}), ('rsas', {'sv': 0.0, 'P1': 0.5, 'x1': 0.6})):
            out.append(('f_bs', dict(method=m, opts=o, T=2, N=2, S=2, M=1, variant=v, wsel=v, sharp=1.0 / 64)))
            out.append(('f_bs', dict(method=m, opts=o, T=3, N=2, S=2, M=1, variant=v, wsel=v + 1, every=7, sharp=1.0 / 512)))
            out.append(('f_bs', dict(method=m, opts=o, T=2, N=2, S=2, M=2, variant=v, wsel=v, every=3, sharp=1.0 / 64)))
            out.append(('f_bs', dict(method=m, opts=o, T=2, N=3, S=2, M=1, variant=v, wsel=v + 2, every=5, sharp=1.0 / 64)))
        # one particle dominates the others, by little or by many orders of magnitude
        for wp, sh in (([(1, 400), (400, 1)], None), ([(1, 1e-9), (1e-9, 1), (1, 1)], None), ([(1, 1e-35), (1e-35, 1)], 1e-30),
                       ([(1, 1e-30), (1e-30, 1)], 1e-40)):
            for m, o in (('full', {}), ('rs', {'R': 1}), ('rs', {'R': 2}), ('rsas', None)):
                for T, M, ev in ((2, 1, 1), (2, 2, 2), (3, 1, 9 if len(wp) == 2 else 37)):
                    out.append(('f_bs', dict(method=m, opts=o, T=T, N=2, S=2, M=M, variant=v, wsel=-1, wpat=wp, sharp=sh, every=ev)))
        for i, o in enumerate(RSAS):
            out.append(('f_bs', dict(method='rsas', opts=o, T=2, N=2, S=2, M=1, variant=v, wsel=v, slack=0.0 if v != 1 else 0.7)))
            out.append(('f_bs', dict(method='rsas', opts=o, T=2, N=2, S=2, M=2, variant=v, wsel=-1, every=5)))
            out.append(('f_bs', dict(method='rsas', opts=o, T=3, N=2, S=2, M=1, variant=v, wsel=v + 2, every=7)))
        out.append(('f_bs', dict(method='rsas', opts=None, T=2, N=3, S=2, M=1, variant=v, wsel=v + 2, every=3, offs=True)))
    return out
