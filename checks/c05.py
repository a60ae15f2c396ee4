"""C05: every sequence of measure/forward calls: append-only history, aligned u/y/t."""
import itertools
import numpy as np
from lib import seam, hmm, steps
from lib.env import THOROUGH

CONFS = ('pure',)


def snap(pt):
    return [(np.array(s.pa.part, copy=True), np.array(s.pa.w, copy=True), np.array(s.ancestors, copy=True)) for s in pt.traj]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def fval(v):
    return None if v is None else float(np.asarray(v, dtype=float).reshape(-1)[0])


def pack(v, vec):
    if v is None or not vec:
        return v
    return np.asarray([v, -1.0])


def ref_traj(spec, model):
    """A reference trajectory for the conditional filters, made by the library itself."""
    c = seam.Controller(cells=seam.make_cells((), 3))
    with seam.active(c):
        pt = steps.new_pt(model, 1, 'pf', 0.0)
        pt.measure(spec.y[0])
        for t in range(spec.T - 1):
            pt.forward(spec.u[t], spec.y[t + 1])
        st = pt.perform_smoothing(1, 'ancestor')
    return np.copy(st.traj)


def check_calls(r, calls, pt, U, Y, before, ctx, smoothing=False):
    """Every model call used the data of its own time step."""
    xs = {t: steps.states_of(s.pa) for t, s in enumerate(pt.traj)}
    for c in calls:
        t = c[-1]
        if t != int(t) or not 0 <= t < len(pt.traj):
            return r.fail('time', 'model called with time stamp %r (%s)' % (t, c[0]), call=c, **ctx)
        t = int(t)
        if c[0] in ('noise', 'update', 'xnext', 'first'):
            u = c[3] if c[0] == 'xnext' else c[2]
            if t >= len(U) or u != U[t]:
                return r.fail('input', '%s at t=%d called with u=%r, u[t]=%r' % (c[0], t, u, U[t] if t < len(U) else None), call=c, **ctx)
            if c[0] == 'first' and c[3] != Y[t + 1]:
                return r.fail('output', 'first stage weights at t=%d called with y=%r, y[t+1]=%r' % (t, c[3], Y[t + 1]), call=c, **ctx)
            if not smoothing and not set(c[1]) <= set(xs[t]):
                return r.fail('particles', '%s at t=%d called with states %r, particles are %r' % (c[0], t, c[1], xs[t]), call=c, **ctx)
        elif c[0] == 'measure':
            if c[2] != Y[t]:
                return r.fail('output', 'likelihood at t=%d called with y=%r, y[t]=%r' % (t, c[2], Y[t]), call=c, **ctx)
            if not smoothing and tuple(c[1]) != xs[t]:
                return r.fail('particles', 'likelihood at t=%d of states %r, particles are %r' % (t, c[1], xs[t]), call=c, **ctx)
        elif c[0] == 'x0' and t != 0:
            return r.fail('time', 'initial density at t=%d' % t, call=c, **ctx)
    return True


def f_seq(r, filt, N, depth, alloc, res, vec, cells, variant=0, S=2, nou=None, pattern=None, dev=None):
    """All call sequences up to the depth; or one long repeated pattern along fixed schedules (dev)."""
    pfy = filt in ('pfy', 'cpfyas')
    cond = filt in ('cpf', 'cpfas', 'csiras', 'cpfyas')
    spec = hmm.Spec(S=S, T=depth + 2, variant=variant)
    if nou is not None:
        # steps without input (None): every second one, or all
        spec.u = [None if nou == 'all' or t % 2 == nou else u for t, u in enumerate(spec.u)]
    rec = []
    model = hmm.make_model(spec, rec)
    opts = {'cond_traj': ref_traj(spec, model)} if cond else {}
    noneok = filt in ('pf', 'apf', 'cpf', 'cpfas')

    def run(seq, c):
        del rec[:]
        pt = steps.new_pt(model, N, filt, res, opts, alloc)
        U, Y, n = [], [], 0
        for k, op in enumerate(seq):
            ctx = dict(filter=filt, ops=seq, at=k, alloc=alloc)
            before = snap(pt)
            del rec[:]
            if op == 'm':
                if n == 0:
                    Y.append(None)
                    n = 1
                Y[n - 1] = float(spec.y[n - 1])
                pt.measure(pack(spec.y[n - 1], vec))
                upto = n - 1
            else:
                if n == 0:
                    Y.append(None)
                    n = 1
                y = None if op == 'n' else spec.y[n]
                U.append(fval(spec.u[n - 1]))
                Y.append(None if y is None else float(y))
                if n == 1 and not before:
                    before = []
                pt.forward(pack(spec.u[n - 1], vec), pack(y, vec))
                n += 1
                upto = n - 1
            after = snap(pt)
            r.transitions += 1
            if len(pt) != n or len(pt.traj) != n or len(after) != n:
                return r.fail('length', 'length %d after %d time points' % (len(pt), n), **ctx)
            for t in range(min(upto, len(before))):
                if not same(before[t], after[t]):
                    return r.fail('history', 'step %d changed during the operation on step %d' % (t, upto), **ctx)
            if op == 'm' and len(before) == n:
                if not np.array_equal(before[-1][0], after[-1][0]) or not np.array_equal(before[-1][2], after[-1][2]):
                    return r.fail('history', 'measure changed the particles or ancestors', **ctx)
            for t in range(n):
                if t < n - 1 and fval(pt.uvec[t]) != U[t]:
                    return r.fail('stored', 'u[%d] stored as %r, was %r' % (t, pt.uvec[t], U[t]), **ctx)
                if (Y[t] is not None or t > 0) and fval(pt.yvec[t]) != Y[t]:
                    return r.fail('stored', 'y[%d] stored as %r, was %r' % (t, pt.yvec[t], Y[t]), **ctx)
                if float(pt.tvec[t]) != t:
                    return r.fail('stored', 't[%d] stored as %r' % (t, pt.tvec[t]), **ctx)
            if not check_calls(r, rec, pt, U, Y, before, ctx):
                return False
            if op == 'm' and not pfy:
                if not any(c[0] == 'measure' for c in rec):
                    return r.fail('output', 'measure did not evaluate the likelihood', **ctx)
            for t in range(n):
                for u in range(t):
                    if np.shares_memory(pt.traj[t].pa.part, pt.traj[u].pa.part) or np.shares_memory(pt.traj[t].pa.w, pt.traj[u].pa.w):
                        return r.fail('alias', 'steps %d and %d share memory' % (t, u), **ctx)
            # the lineage of every particle is the stored one
            if not pfy and not cond:
                for t in range(1, n):
                    par = pt.traj[t - 1].pa.part[np.asarray(pt.traj[t].ancestors, dtype=int)]
                    if not np.array_equal(pt.traj[t].pa.part[:, 1], par[:, 1] * spec.S + pt.traj[t].pa.part[:, 0]):
                        return r.fail('lineage', 'step %d does not descend from step %d' % (t, t - 1), **ctx)
        r.outcome(tuple(seq) + tuple(steps.states_of(s.pa) for s in pt.traj))
        return True

    seqs = []
    for d in range(1, depth + 1 if pattern is None else 1):
        for seq in itertools.product(('f', 'n', 'm') if noneok else ('f', 'm'), repeat=d):
            # 'm' only where the current step has no measurement yet
            ok = True
            has = False
            for k, op in enumerate(seq):
                if op == 'm':
                    if has or (pfy and k > 0) or (k > 0 and not noneok):
                        ok = False
                    has = True
                else:
                    has = op == 'f'
            if filt == 'csiras' and seq[0] != 'm':
                pass
            if ok and (d == depth or seq[-1] != 'f' or True):
                seqs.append(seq)
    # only maximal sequences are needed (all prefixes are checked on the way)
    seqs = [s for s in seqs if len(s) == depth or (len(s) < depth and s[-1] == 'm' and pfy)]
    if pattern is not None:
        seqs = [tuple((pattern * depth)[:depth])]
    for seq in seqs:
        st = seam.Stats()
        r.states += 1
        for p, ch, ok in seam.explore(lambda c: run(seq, c), cells=seam.make_cells((), cells), stats=st, dev=dev):
            if not ok:
                r.violations[-1]['data']['choices'] = ch
                r.executions += st.executions
                return
        r.executions += st.executions
    r.sample(filter=filt, sequences=len(seqs), last=seq)


def f_inplace(r, N, T, res):
    """A time update or measurement update that is asked to leave its argument alone does so and gives
    what the update in place gives."""
    from pyparticleest.filter import ParticleApproximation
    spec = hmm.Spec(S=2, T=T)
    model = hmm.make_model(spec)
    st = seam.Stats()
    for k in range(T - 1):
        for anc in itertools.product(range(N), repeat=N):
            for w in steps.WPAT[N]:
                pt = steps.prelude(spec, model, N, 'pf', k, res)
                w0 = np.log(np.maximum(np.asarray(w, dtype=float) / sum(w), 1e-9))
                pt.traj[k].pa.w = w0.copy()
                u, y, tm = np.empty(k + 2, dtype=object), np.empty(k + 2, dtype=object), np.arange(k + 2.0)
                u[:] = spec.u[:k + 2]
                y[:] = spec.y[:k + 2]
                a = np.asarray(anc)

                def body(c, inplace):
                    tr = list(pt.traj)
                    before = snap(pt)
                    pa = ParticleApproximation(np.array(tr[-1].pa.part[a], copy=True), np.array(tr[-1].pa.w[a], copy=True)) if inplace else None
                    p1 = pt.pf.update(traj=tr, ancestors=a, uvec=u, yvec=y, tvec=tm, cur_ind=k, pa=pa, inplace=inplace)
                    keep = (np.array(p1.part, copy=True), np.array(p1.w, copy=True))
                    p2 = pt.pf.measure(traj=tr, ancestors=a, pa=p1, uvec=u, yvec=y, tvec=tm, cur_ind=k + 1, inplace=inplace)
                    if not all(same(x, z) for x, z in zip(before, snap(pt))):
                        return 'history'
                    if not inplace and not (np.array_equal(p1.part, keep[0]) and np.array_equal(p1.w, keep[1])):
                        return 'argument'
                    return keep + (np.array(p2.part, copy=True), np.array(p2.w, copy=True))
                ref = [x for _, _, x in seam.explore(lambda c: body(c, True), cells=seam.make_cells((), 2), stats=st)]
                got = [x for _, _, x in seam.explore(lambda c: body(c, False), cells=seam.make_cells((), 2), stats=st)]
                r.states += len(got)
                ctx = dict(k=k, ancestors=anc, weights=w)
                for x in ref + got:
                    if isinstance(x, str):
                        return r.fail('inplace', 'an update changed the %s' % x, **ctx)
                if len(ref) != len(got) or any(not all(np.allclose(p, q, atol=1e-12) for p, q in zip(x, z)) for x, z in zip(ref, got)):
                    return r.fail('inplace', 'the update not in place gives other particles or weights', **ctx)
                r.outcome(repr(got[0]))
    r.add(st)


SMOOTHERS = [('ancestor', {}), ('full', {}), ('rs', {'R': 1}), ('rsas', {}), ('mcmc', {'R': 1}),
             ('mhips', {'R': 1}), ('mhips_reduced', {'R': 1}), ('mhbp', {'R': 1})]


def f_smooth(r, sm, filt, seq, alloc, N=2, M=1, dev=None):
    """Smoothers see the data of the right steps and leave the history alone."""
    name, opts = SMOOTHERS[sm]
    spec = hmm.Spec(S=2, T=len(seq) + 2)
    rec = []
    model = hmm.make_model(spec, rec)
    c = seam.Controller(cells=seam.make_cells((), 4))
    U, Y = [], [None]
    with seam.active(c):
        pt = steps.new_pt(model, N, filt, 0.67, {}, alloc)
        for op in seq:
            if op == 'm':
                Y[-1] = float(spec.y[len(Y) - 1])
                pt.measure(spec.y[len(Y) - 1])
            else:
                y = None if op == 'n' else spec.y[len(Y)]
                pt.forward(spec.u[len(U)], y)
                U.append(fval(spec.u[len(U)]))
                Y.append(None if y is None else float(y))
    T = len(pt.traj)
    before = snap(pt)
    ud = [fval(x) for x in pt.uvec]
    yd = [fval(x) for x in pt.yvec]
    ctx = dict(smoother=name, filter=filt, ops=seq, alloc=alloc)

    def body(c):
        del rec[:]
        return pt.perform_smoothing(M, name, dict(opts)), list(rec)
    st = seam.Stats()
    for p, ch, (straj, calls) in seam.explore(body, cells=seam.make_cells((), 2), stats=st, dev=dev):
        r.states += 1
        if len(straj) != T or len(straj.traj) != T:
            return r.fail('smoothlen', 'smoothed trajectory has %d steps' % len(straj), choices=ch, **ctx)
        for t in range(T - 1):
            if fval(straj.u[t]) != U[t]:
                return r.fail('smoothdata', 'input %d is %r' % (t, straj.u[t]), choices=ch, **ctx)
        for t in range(T):
            if fval(straj.y[t]) != Y[t] and not (t == 0 and Y[0] is None):
                return r.fail('smoothdata', 'output %d is %r' % (t, straj.y[t]), choices=ch, **ctx)
            if float(straj.t[t]) != t:
                return r.fail('smoothdata', 'time %d is %r' % (t, straj.t[t]), choices=ch, **ctx)
        now = snap(pt)
        if len(now) != T or not all(same(a, b) for a, b in zip(before, now)):
            return r.fail('history', 'smoothing changed the filter history', choices=ch, **ctx)
        if [fval(x) for x in pt.uvec] != ud or [fval(x) for x in pt.yvec] != yd:
            return r.fail('history', 'smoothing changed the stored data', choices=ch, **ctx)
        if not check_calls(r, calls, pt, U, Y, before, ctx, smoothing=True):
            r.violations[-1]['data']['choices'] = ch
            return
        r.outcome(tuple(steps.states_of(s.pa) for s in straj.traj))
    r.add(st)
    # filtering goes on after smoothing
    with seam.active(seam.Controller(cells=seam.make_cells((), 3))):
        pt.forward(spec.u[len(U)], spec.y[len(Y)])
    now = snap(pt)
    if len(now) != T + 1 or not all(same(a, b) for a, b in zip(before, now)):
        return r.fail('history', 'filtering after smoothing changed the history', **ctx)
    r.sample(smoother=name, ops=seq, calls=len(calls))


def tasks():
    out = []
    for filt in ('pf', 'apf', 'sir', 'pfy', 'cpf', 'cpfas', 'csiras', 'cpfyas'):
        for alloc in (None, 1, 2, 3, 6):
            for res in ((0.0, 0.9) if filt in ('pf', 'apf', 'sir', 'pfy') else (0.67,)):
                free = filt in ('pf', 'apf', 'sir', 'pfy')
                n1 = 1 if free else 2
                out.append(('f_seq', dict(filt=filt, N=2, depth=2, alloc=alloc, res=res, vec=False, cells=2)))
                out.append(('f_seq', dict(filt=filt, N=n1, depth=5 if free else 3, alloc=alloc, res=res, vec=True, cells=1, variant=1)))
                for nou in (0, 1, 'all'):
                    out.append(('f_seq', dict(filt=filt, N=n1, depth=4 if free else 3, alloc=alloc, res=res, vec=False, cells=1, nou=nou)))
                if THOROUGH:
                    out.append(('f_seq', dict(filt=filt, N=2, depth=3, alloc=alloc, res=res, vec=False, cells=2)))
                    out.append(('f_seq', dict(filt=filt, N=n1, depth=6 if free else 4, alloc=alloc, res=res, vec=True, cells=1, variant=1)))
                # long runs along fixed schedules
                for k, pat in enumerate(('f', 'mff', 'fnm', 'nnf') if filt in ('pf', 'apf', 'cpf', 'cpfas') else ('m' + 'f' * 30,)):
                    if THOROUGH or k == 0 or alloc in (None, 3):
                        out.append(('f_seq', dict(filt=filt, N=(5, 3, 9, 2)[k], depth=(13, 20, 16, 11)[k], alloc=alloc, res=res, vec=bool(k % 2),
                                                  cells=2, variant=k, pattern=pat, dev=[k, k + 7], nou=None if k < 3 else 1)))
    for sm in range(len(SMOOTHERS)):
        for k, seq in enumerate(('mfffffnffff', 'fnmfnmffnnfff')):
            out.append(('f_smooth', dict(sm=sm, filt=('pf', 'apf')[k], seq=seq, alloc=(None, 4)[(k + sm) % 2], N=(6, 11)[k], M=(7, 4)[k], dev=list(range(8 if not THOROUGH else 40)))))
    for N in (1, 2, 3):
        out.append(('f_inplace', dict(N=N, T=3, res=0.0)))
    for sm in range(len(SMOOTHERS)):
        for seq in ('mff', 'ff', 'nnm', 'mnf', 'fnm', 'mf'):
            for alloc in (None, 5):
                for filt in ('pf', 'apf'):
                    out.append(('f_smooth', dict(sm=sm, filt=filt, seq=seq, alloc=alloc)))
    return out
