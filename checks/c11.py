"""C11: the MCMC smoothers leave the exact joint smoothing law invariant."""
import itertools
import numpy as np
from lib import seam, hmm, steps, smooth
from lib.env import THOROUGH

CONFS = ('pure',)
TOL = 1e-9


def judge(r, spec, body, method, opts, M, ctx, stats):
    got = {}
    exact = spec.joint()
    for p, ch, s in seam.explore(body, stats=stats, lazy=True):
        b = smooth.wellformed(s, spec, M)
        if b:
            return r.fail('shape:' + method, '%s: %s' % (method, b), choices=ch, **ctx)
        states = smooth.ids(s)[1]
        r.outcome(tuple(states))
        for st in states:
            got[st] = got.get(st, 0.0) + p / M
    r.states += len(got)
    d = smooth.dist(got, exact)
    if not d <= TOL:
        return r.fail('law:' + method, '%s(%r) M=%d: law of trajectories %r, exact smoothing law %r' % (method, opts, M, got, exact), **ctx)
    r.sample(method=method, M=M, T=spec.T, law={repr(k): v for k, v in got.items()})
    return True


def f_maps(r, method, opts, T, S, M, variant, missing=(), perm=0, free=None, sharp=None):
    """N = S particles, exact filter marginals, ancestors drawn from the exact backward kernel
    (all ancestor maps are enumerated).  With `free` only the states at those times are unknown
    (long histories); with `sharp` the transition densities differ by orders of magnitude."""
    if free is None:
        spec = hmm.Spec(S=S, T=T, variant=variant, y0=True, missing=missing, sharp=sharp)
    else:
        spec = hmm.Window(free=free, S=S, T=T, variant=variant, y0=True, missing=missing, sharp=sharp)
    with np.errstate(divide='ignore'):
        return run_maps(r, spec, method, opts, T, S, M, missing, perm, free)


def run_maps(r, spec, method, opts, T, S, M, missing, perm, free):
    model = hmm.make_model(spec)
    pt = smooth.base_pt(spec, model, S)
    order = list(itertools.permutations(range(S)))
    xs, ws, back = [], [], []
    for t in range(T):
        x = order[(perm + t) % len(order)]
        f = spec.filt(t)
        xs.append(x)
        ws.append([f[s] / f.sum() for s in x])
        if t == 0:
            back.append(None)
        else:
            f0 = spec.filt(t - 1)
            P = spec.P(t - 1, spec.u[t - 1])
            rows = []
            for s in x:
                k = np.asarray([f0[z] * P[z, s] for z in xs[t - 1]])
                # (a particle that cannot occur: any ancestor)
                rows.append(list(k / k.sum() if k.sum() > 0 else np.eye(S)[0]))
            back.append(rows)

    def body(c):
        ancs = [list(range(S))] + [[c.pick(back[t][i]) for i in range(S)] for t in range(1, T)]
        smooth.set_approx(pt, xs, ws, ancs)
        return pt.perform_smoothing(M, method, None if opts is None else dict(opts))
    st = seam.Stats()
    judge(r, spec, body, method, opts, M, dict(method=method, opts=opts, T=T, M=M, missing=missing, free=free, sharp=spec.sharp), st)
    r.add(st)


def f_lines(r, method, opts, T, M, variant, missing=()):
    """N = 2^T genealogical lines, one per path, weighted by the exact filter probabilities."""
    S = 2
    spec = hmm.Spec(S=S, T=T, variant=variant, y0=True, missing=missing)
    model = hmm.make_model(spec)
    paths = list(itertools.product(range(S), repeat=T))
    N = len(paths)
    pt = smooth.base_pt(spec, model, N)
    xs = [[p[t] for p in paths] for t in range(T)]
    ws = []
    for t in range(T):
        ws.append([spec.path_weight(p[:t + 1]) for p in paths])
    # interleave the lines differently at every time
    perms = [[(k * (2 * t + 1) + t) % N for k in range(N)] for t in range(T)]   # position -> line
    pos = [{ln: k for k, ln in enumerate(p)} for p in perms]
    xs = [[xs[t][ln] for ln in perms[t]] for t in range(T)]
    ws = [[ws[t][ln] for ln in perms[t]] for t in range(T)]
    ancs = [list(range(N))] + [[pos[t - 1][ln] for ln in perms[t]] for t in range(1, T)]
    smooth.set_approx(pt, xs, ws, ancs)
    st = seam.Stats()
    snap = smooth.snapshot(pt)
    ok = judge(r, spec, lambda c: pt.perform_smoothing(M, method, None if opts is None else dict(opts)), method, opts, M,
               dict(method=method, opts=opts, T=T, M=M, lines=True, missing=missing), st)
    if ok and not smooth.same(snap, smooth.snapshot(pt)):
        r.fail('history:' + method, '%s changed the filter history' % method)
    r.add(st)


METHODS = ('mcmc', 'mhips', 'mhips_reduced', 'mhbp')


def tasks():
    out = []
    for meth in METHODS:
        for v in ((0, 1, 2) if not THOROUGH else range(8)):
            out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=2, M=1, variant=v, perm=v)))
            out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=2, M=2, variant=v, perm=v)))
            out.append(('f_maps', dict(method=meth, opts={'R': 2}, T=2, S=2, M=1, variant=v, perm=v)))
            out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=3, M=1, variant=v, perm=v)))
            out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=3, S=2, M=1, variant=v, perm=v)))
            if meth == 'mcmc':
                for R in ((1, 2) if not THOROUGH else (1, 2, 3)):
                    out.append(('f_maps', dict(method=meth, opts={'R': R}, T=3, S=2, M=1, variant=v, perm=v)))
                out.append(('f_maps', dict(method=meth, opts={'R': 2}, T=2, S=2, M=2, variant=v, perm=v + 1)))
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=4, S=2, M=1, variant=v, perm=v)))
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=3, S=2, M=2, variant=v, perm=v)))
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=2, M=3, variant=v, perm=v)))
                out.append(('f_lines', dict(method=meth, opts={'R': 1 if not THOROUGH else 2}, T=3, M=1, variant=v)))
            if meth in ('mhips', 'mhips_reduced'):
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=4, S=2, M=1, variant=v, perm=v)))
            if meth == 'mhips_reduced' or (THOROUGH and meth == 'mhips'):
                out.append(('f_maps', dict(method=meth, opts={'R': 2}, T=3, S=2, M=1, variant=v, perm=v)))
                if v == 0 or THOROUGH:
                    out.append(('f_maps', dict(method=meth, opts={'R': 2}, T=2, S=2, M=2, variant=v, perm=v)))
            # long histories, a few unknown states anywhere in them
            for T, k, R, M in ((6, 1, 1, 1), (5, 2, 1, 1), (6, 1, 2, 1), (6, 1, 1, 2)):
                for t0 in range(0, T - k + 1):
                    if THOROUGH or M * R * k == 1 or t0 % 3 == v % 3:
                        out.append(('f_maps', dict(method=meth, opts={'R': R}, T=T, S=2, M=M, variant=v, perm=v,
                                                   free=list(range(t0, t0 + k)), missing=((), (1,), (4,))[v % 3])))
            for sh in (1.0 / 64, 1.0 / 4096, 1e-9):
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=2, M=1, variant=v, perm=v, sharp=sh)))
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=3, S=2, M=1, variant=v, perm=v, sharp=sh)))
            if v == 0 and meth != 'mcmc':
                out.append(('f_maps', dict(method=meth, opts={'R': 0}, T=2, S=2, M=2, variant=v, perm=v)))
            out.append(('f_lines', dict(method=meth, opts={'R': 1}, T=2, M=1, variant=v)))
            out.append(('f_lines', dict(method=meth, opts={'R': 1}, T=2, M=2, variant=v)))
    return sorted(out, key=lambda t: -t[1]['T'] * t[1]['M'] * t[1]['opts']['R'])
