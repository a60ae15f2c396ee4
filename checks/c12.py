"""C12: the ancestor smoother returns the stored genealogies; smoothers never touch the history."""
import itertools
import math
import numpy as np
from lib import seam, hmm, steps, smooth
from lib.env import THOROUGH

CONFS = ('pure',)


def f_ancestor(r, N, T, S, M, variant, every=1, offs=False):
    spec = hmm.Spec(S=S, T=T, variant=variant, y0=True)
    model = hmm.make_model(spec)
    pt = smooth.base_pt(spec, model, N)
    st = seam.Stats()
    W = steps.WPAT[N]
    k = 0
    for ancs in itertools.product(itertools.product(range(N), repeat=N), repeat=T - 1):
        for w in W:
            k += 1
            if k % every:
                continue
            xs = [[(i + t + k) % S for i in range(N)] for t in range(T)]
            ws = [W[(t + k) % len(W)] for t in range(T - 1)] + [w]
            smooth.set_approx(pt, xs, ws, [list(range(N))] + [list(a) for a in ancs], (lambda t: 500.0 - 900 * t) if offs else None)
            snap = smooth.snapshot(pt)
            wn = np.asarray(w, dtype=float) / sum(w)
            exp = np.zeros(N)
            ctx = dict(ancestors=ancs, w=w, M=M, N=N, T=T)
            r.states += 1
            for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, 'ancestor'), stats=st, lazy=True):
                b = smooth.wellformed(s, spec, M)
                if b:
                    return r.fail('shape', b, choices=ch, **ctx)
                lines, states = smooth.ids(s)
                cnt = np.zeros(N)
                for ln, xx in zip(lines, states):
                    i = ln[-1]
                    if not 0 <= i < N:
                        return r.fail('lines', 'line ends in %r' % (ln,), choices=ch, **ctx)
                    cnt[i] += 1
                    want = [i]
                    for t in range(T - 1, 0, -1):
                        want.append(ancs[t - 1][want[-1]])
                    want = tuple(reversed(want))
                    if want != ln:
                        return r.fail('lines', 'line %r returned, the ancestors of particle %d are %r' % (ln, i, want), choices=ch, **ctx)
                    if tuple(xs[t][want[t]] for t in range(T)) != xx:
                        return r.fail('lines', 'states %r do not belong to line %r' % (xx, ln), choices=ch, **ctx)
                for i in range(N):
                    if not math.floor(M * wn[i] - 1e-9) <= cnt[i] <= math.ceil(M * wn[i] + 1e-9):
                        return r.fail('counts', 'counts %r for M*w = %r' % (list(cnt), list(M * wn)), choices=ch, **ctx)
                exp += p * cnt
                r.outcome(tuple(lines))
            if not np.max(np.abs(exp - M * wn)) < 1e-9:
                return r.fail('counts', 'mean counts %r for M*w = %r' % (list(exp), list(M * wn)), **ctx)
            if not smooth.same(snap, smooth.snapshot(pt)):
                return r.fail('history:ancestor', 'filter history changed', **ctx)
    r.add(st)
    r.sample(N=N, T=T, M=M, ancestors=ancs, expected_counts=list(exp))


def f_large(r, N, M, T, variant, seeds):
    """Genealogies and counts for sizes beyond enumeration (fixed schedules, all ancestor maps of a family)."""
    spec = hmm.Spec(S=2, T=T, variant=variant, y0=True)
    model = hmm.make_model(spec)
    pt = smooth.base_pt(spec, model, N)
    st = seam.Stats()
    for k in range(3 * N):
        ancs = [[(i * (k + t) + k // 2 + t) % N if k % 3 else (i * i + k + t) % N for i in range(N)] for t in range(1, T)]
        xs = [[(i + t + k) % 2 for i in range(N)] for t in range(T)]
        ws = [[(i * (t + 2) + k) % 7 + (k % 2) for i in range(N)] for t in range(T)]
        for w in ws:
            w[k % N] += 1
        smooth.set_approx(pt, xs, ws, [list(range(N))] + ancs, lambda t: 500.0 - 900 * t)
        snap = smooth.snapshot(pt)
        wn = np.asarray(ws[-1], dtype=float) / sum(ws[-1])
        for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, 'ancestor'), stats=st, dev=seeds):
            r.states += 1
            ctx = dict(k=k, M=M, N=N, T=T, schedule=ch.seed)
            b = smooth.wellformed(s, spec, M)
            if b:
                return r.fail('shape', b, **ctx)
            lines, states = smooth.ids(s)
            cnt = np.zeros(N)
            for ln, xx in zip(lines, states):
                i = ln[-1]
                if not 0 <= i < N:
                    return r.fail('lines', 'line ends in %r' % (ln,), **ctx)
                cnt[i] += 1
                want = [i]
                for t in range(T - 1, 0, -1):
                    want.append(ancs[t - 1][want[-1]])
                want = tuple(reversed(want))
                if want != ln or tuple(xs[t][want[t]] for t in range(T)) != xx:
                    return r.fail('lines', 'line %r returned, the ancestors of particle %d are %r' % (ln, i, want), **ctx)
            for i in range(N):
                if not math.floor(M * wn[i] - 1e-9) <= cnt[i] <= math.ceil(M * wn[i] + 1e-9):
                    return r.fail('counts', 'counts %r for M*w = %r' % (list(cnt), list(M * wn)), **ctx)
            if not smooth.same(snap, smooth.snapshot(pt)):
                return r.fail('history:ancestor', 'filter history changed', **ctx)
    r.add(st)
    r.sample(N=N, M=M, T=T)


SM = [('full', {}), ('rs', {'R': 1}), ('rsas', {}), ('mcmc', {'R': 2}), ('mhips', {'R': 1}), ('mhips_reduced', {'R': 1}), ('mhbp', {'R': 1}), ('ancestor', {})]


def f_history(r, sm, T, M, variant, second):
    """Smoothing leaves filter history, inputs, measurements alone, on every outcome; the smoothed
    trajectories do not share memory with the history or with an earlier result."""
    name, opts = SM[sm]
    spec = hmm.Spec(S=2, T=T, variant=variant, y0=True)
    model = hmm.make_model(spec)
    pt = smooth.base_pt(spec, model, 2)
    xs = [[(i + t // 2) % 2 for i in range(2)] for t in range(T)]
    ws = [[1, 3] if t % 2 else [2, 1] for t in range(T)]
    smooth.set_approx(pt, xs, ws, [[0, 1]] + [[(i + t) % 2 for i in range(2)] for t in range(1, T)])
    snap = smooth.snapshot(pt)
    st = seam.Stats()
    first = None
    for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, name, dict(opts)), stats=st, lazy=True):
        r.states += 1
        if not smooth.same(snap, smooth.snapshot(pt)):
            return r.fail('history:' + name, '%s changed the filter history' % name, choices=ch)
        r.outcome(repr(smooth.ids(s)[1]))
        # writing to the result must not reach the history
        for x in s.traj:
            x.pa.part[:] = -7.0
            x.pa.w[:] = -7.0
        if not smooth.same(snap, smooth.snapshot(pt)):
            return r.fail('alias:' + name, 'the result of %s shares memory with the filter history' % name, choices=ch)
    r.add(st)
    r.sample(smoother=name, executions=st.executions)


def tasks():
    out = []
    for k, (N, M, T) in enumerate(((9, 11, 8), (20, 7, 5), (6, 50, 4), (31, 31, 6), (3, 200, 3))):
        out.append(('f_large', dict(N=N, M=M, T=T, variant=k, seeds=list(range(3 if not THOROUGH else 20)))))
    for v in (0, 1) if not THOROUGH else range(5):
        for M in (1, 2, 3, 4, 5):
            out.append(('f_ancestor', dict(N=2, T=1, S=2, M=M, variant=v)))
            out.append(('f_ancestor', dict(N=2, T=3, S=2, M=M, variant=v, offs=bool(v))))
            out.append(('f_ancestor', dict(N=3, T=2, S=2, M=M, variant=v)))
            out.append(('f_ancestor', dict(N=3, T=3, S=3, M=M, variant=v, every=5 if not THOROUGH else 1)))
            out.append(('f_ancestor', dict(N=4, T=2, S=3, M=M, variant=v, every=1)))
        out.append(('f_ancestor', dict(N=2, T=5, S=2, M=2, variant=v)))
        for sm in range(len(SM)):
            for T in (2, 3):
                for M in (1, 2):
                    if T == 3 and M == 2 and SM[sm][0] not in ('full', 'ancestor', 'rs', 'rsas') and not THOROUGH:
                        continue
                    if SM[sm][0] == 'mhbp' and T == 3 and M == 2:
                        continue
                    out.append(('f_history', dict(sm=sm, T=T, M=M, variant=v, second=False)))
    return out[::-1]
