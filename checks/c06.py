"""C06: constants added to the log densities change nothing, and weights never degenerate."""
import itertools
import numpy as np
from lib import seam, hmm, steps
from lib.env import THOROUGH

CONFS = ('pure',)

# cells whose representatives are no simple fractions: no decision of the code is ever a tie
def cells_of(n):
    return seam.make_cells({2: (0.5137,), 3: (0.3137, 0.7219), 4: (0.21371, 0.47817, 0.71913)}[n])


OFFSETS = [('plus', lambda t: 3000.0), ('minus', lambda t: -3000.0), ('alternating', lambda t: 2500.0 * (-1) ** t),
           ('late', lambda t: 900.0 * t), ('early', lambda t: -4000.0 if t == 0 else 0.0), ('small', lambda t: 0.75 - t)]
FILTERS = ['pf', 'apf', 'sir', 'pfy', 'cpf', 'cpfas', 'csiras', 'cpfyas']
KINDS = {'pf': ['meas'], 'apf': ['meas', 'first'], 'sir': ['meas', 'q', 'xnext'], 'pfy': ['xnext'], 'cpf': ['meas'],
         'cpfas': ['meas', 'xnext'], 'csiras': ['meas', 'q', 'xnext'], 'cpfyas': ['xnext']}


def mk(variant, T, y0, kind, off, S=2):
    spec = hmm.Spec(S=S, T=T, variant=variant, y0=y0)
    for k in (kind if isinstance(kind, (list, tuple)) else [kind]):
        if k == 'meas':
            spec.logscale = off
        elif k is not None:
            spec.scale[k] = off
    return spec, hmm.make_model(spec)


def ref_traj(spec, xs):
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    out = np.empty((len(xs),), dtype=object)
    for t, x in enumerate(xs):
        out[t] = TrajectoryStep(ParticleApproximation(np.asarray([[float(x), -1.0]])), np.zeros(1, dtype=int))
    return out


def run_filter(spec, model, filt, N, res):
    opts = {}
    if filt in ('cpf', 'cpfas', 'csiras', 'cpfyas'):
        opts['cond_traj'] = ref_traj(spec, [(t + 1) % spec.S for t in range(spec.T)])
    pt = steps.new_pt(model, N, filt, res, opts)
    flags = []
    if spec.y[0] is not None:
        pt.measure(spec.y[0])
    for t in range(spec.T - 1):
        flags.append(bool(pt.forward(spec.u[t], spec.y[t + 1])))
    return pt, flags


def digest(pt, flags):
    W = []
    for s in pt.traj:
        W.append(hmm.nw(s.pa.w))
    return (tuple(flags), tuple(steps.states_of(s.pa) for s in pt.traj),
            tuple(tuple(int(a) for a in s.ancestors) for s in pt.traj)), np.asarray(W)


def raw_ok(pt):
    for t, s in enumerate(pt.traj):
        w = np.asarray(s.pa.w)
        if np.any(np.isnan(w)) or not np.isfinite(np.max(w)) or not np.sum(np.exp(w)) > 0 or not np.isfinite(np.sum(np.exp(w))):
            return t, w
    return None


def f_filter(r, filt, N, variant, T, res, y0):
    cells = cells_of(3 if filt not in ('cpfas', 'csiras', 'cpfyas') else 2)
    spec0, model0 = mk(variant, T, y0, None, None)
    base = {}
    st = seam.Stats()
    for p, ch, (pt, flags) in seam.explore(lambda c: run_filter(spec0, model0, filt, N, res), cells=cells, stats=st):
        base[tuple(ch)] = digest(pt, flags)
        r.outcome(base[tuple(ch)][0])
    kinds = [[k] for k in KINDS[filt]]
    if len(kinds) > 1:
        kinds.append(KINDS[filt])
    for kind in kinds:
        for name, off in OFFSETS:
            spec, model = mk(variant, T, y0, kind, off)
            r.states += 1
            seen = 0
            ctx = dict(filter=filt, offset=name, on=kind)
            for p, ch, (pt, flags) in seam.explore(lambda c: run_filter(spec, model, filt, N, res), cells=cells, stats=st):
                seen += 1
                b = raw_ok(pt)
                if b is not None:
                    r.fail('degenerate:' + filt, '%s with offset %s on %s: log weights at t=%d are %r' % (filt, name, kind, b[0], b[1]), choices=ch, **ctx)
                    return
                d, W = digest(pt, flags)
                if tuple(ch) not in base:
                    r.fail('path:' + filt, 'random choices differ with offset %s on %s' % (name, kind), choices=ch, **ctx)
                    return
                bd, bW = base[tuple(ch)]
                if d != bd or not np.max(np.abs(W - bW)) < 1e-7:
                    r.fail('changed:' + filt, '%s with offset %s on %s: %r %r instead of %r %r' % (filt, name, kind, d, W, bd, bW), choices=ch, **ctx)
                    return
            if seen != len(base):
                return r.fail('path:' + filt, '%d executions instead of %d' % (seen, len(base)), **ctx)
    r.add(st)
    r.sample(filter=filt, executions=st.executions, offsets=[o[0] for o in OFFSETS])


SM = [('full', {}, ['xnext', 'meas']), ('rs', {'R': 1}, ['xnext', 'meas']), ('rsas', {}, ['xnext', 'meas']), ('mcmc', {'R': 1}, ['xnext', 'meas']),
      ('mhips', {'R': 1}, ['xnext', 'meas', 'prop', 'x0']), ('mhips_reduced', {'R': 1}, ['xnext', 'meas']),
      ('mhbp', {'R': 1}, ['xnext', 'meas', 'prop', 'x0']), ('ancestor', {}, ['meas'])]


def f_smoother(r, sm, variant, T, M, N=2):
    name, opts, kinds = SM[sm]
    spec0, model0 = mk(variant, T, True, None, None)

    def prep(spec, model):
        # the same filter approximation for all runs (an offset c_t on the measurement shows up in the filter weights)
        with seam.active(seam.Controller(cells=seam.make_cells((), 3))):
            pt, _ = run_filter(spec, model, 'pf', N, 0.0)
        return pt
    pt0 = prep(spec0, model0)
    xs = [[0, 1], [1, 0], [0, 1], [1, 1]]
    for t, s in enumerate(pt0.traj):
        s.pa.part[:, 0] = xs[t][:N]
        s.pa.w = np.log(np.asarray([0.3, 0.7]) if t % 2 else np.asarray([0.6, 0.4]))
    cells = cells_of(2 if name in ('rs', 'rsas') else 3)

    def digest2(st):
        return tuple(steps.states_of(s.pa) for s in st.traj)
    base = {}
    stats = seam.Stats()
    for p, ch, s in seam.explore(lambda c: pt0.perform_smoothing(M, name, dict(opts)), cells=cells, stats=stats):
        base[tuple(ch)] = digest2(s)
        r.outcome(base[tuple(ch)])
    import copy
    for kind in [[k] for k in kinds] + [kinds, ['w']]:
        for oname, off in OFFSETS:
            spec, model = mk(variant, T, True, [k for k in kind if k != 'w'], off)
            pt = steps.clone(pt0, model0)
            pt.pf.model = model
            if kind == ['w']:
                # any constant on the stored filter weights
                for t, s in enumerate(pt.traj):
                    s.pa.w = s.pa.w + off(t)
            r.states += 1
            n = 0
            for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(M, name, dict(opts)), cells=cells, stats=stats):
                n += 1
                if base.get(tuple(ch)) != digest2(s):
                    r.fail('changed:' + name, '%s with offset %s on %s: %r instead of %r' % (name, oname, kind, digest2(s), base.get(tuple(ch))),
                           choices=ch, smoother=name, offset=oname, on=kind)
                    return
            if n != len(base):
                return r.fail('path:' + name, '%d executions instead of %d' % (n, len(base)), smoother=name, offset=oname, on=kind)
    r.add(stats)
    r.sample(smoother=name, executions=stats.executions)


class Policy(seam.Controller):
    """A single fixed way to take all choices."""

    def __init__(self, pol, grid):
        seam.Controller.__init__(self, cells=seam.make_cells((), grid))
        self.pol = pol
        self.k = 0

    def choose(self, probs, kind=''):
        self.k += 1
        n = len(probs)
        if self.pol == 'first':
            return 0
        if self.pol == 'last':
            return n - 1
        if self.pol == 'cycle':
            return self.k % n
        return (self.k * self.k // 3) % n


def f_long(r, filt, N, res, pol, T, per):
    """Long runs: log-likelihood around `per` per step."""
    spec, model = mk(1, T, True, KINDS[filt], (lambda t: per) if per != 'grow' else (lambda t: -float(t)))
    with seam.active(Policy(pol, 5)):
        pt, flags = run_filter(spec, model, filt, N, res)
    r.states += T
    r.transitions += T
    r.executions += 1
    r.outcome((filt, tuple(flags[:8])))
    b = raw_ok(pt)
    if b is not None:
        return r.fail('degenerate:' + filt, '%s: log weights at t=%d of a long run are %r' % (filt, b[0], b[1]), filter=filt, t=b[0])
    for t, s in enumerate(pt.traj):
        if np.max(np.abs(np.max(s.pa.w))) > 700:
            return r.fail('degenerate:' + filt, '%s: largest log weight at t=%d is %r, cannot be exponentiated' % (filt, t, np.max(s.pa.w)), t=t)
        if not 1.0 - 1e-9 <= s.pa.calc_Neff() <= N + 1e-9:
            return r.fail('neff:' + filt, '%s: Neff %r at t=%d' % (filt, s.pa.calc_Neff(), t), t=t)
    if filt not in ('pfy', 'cpfyas'):
        with seam.active(Policy(pol, 5)):
            for name in ('full', 'ancestor'):
                st = pt.perform_smoothing(2, name)
                if len(st) != T or any(np.any(np.isnan(s.pa.part)) for s in st.traj):
                    return r.fail('smooth:' + name, 'smoothing a long run failed', filter=filt)
    r.sample(filter=filt, T=T, last_w=list(pt.traj[-1].pa.w), loglik_per_step=per)


def f_extreme(r, filt, N, T, variant, res, size, dev=None):
    """Likelihoods that differ between the particles by far more than a double can hold, in one direction
    and then in the other: log weights have to be kept as logarithms."""
    spec = hmm.Spec(S=2, T=T, variant=variant, sharp=0.25)

    def logg(t, y):
        g = np.zeros(2)
        g[(int(t) + variant) % 2] = size * (1.0 + 0.1 * (int(t) % 3))
        return g
    spec.logg = logg
    if filt == 'apf':
        spec.first_stage = lambda t, u, y: np.ones(2)
    model = hmm.make_model(spec)
    st = seam.Stats()
    for p, ch, (pt, flags) in seam.explore(lambda c: run_filter(spec, model, filt, N, res), cells=seam.make_cells((), 2), stats=st, dev=dev):
        r.states += 1
        lw = np.zeros(N)
        ctx = dict(filter=filt, size=size, choices=ch)
        b = raw_ok(pt)
        if b is not None:
            return r.fail('degenerate:' + filt, '%s: log weights at t=%d are %r' % (filt, b[0], b[1]), **ctx)
        for t, s in enumerate(pt.traj):
            if t and flags[t - 1]:
                lw = np.zeros(N)
            xs = steps.states_of(s.pa)
            if spec.y[t] is not None:
                lw = lw + logg(t, spec.y[t])[list(xs)]
            d = np.asarray(s.pa.w) - np.max(s.pa.w) - (lw - np.max(lw))
            if not np.all(np.abs(d) < 1e-6):
                return r.fail('extreme:' + filt, '%s: relative log weights at t=%d %r, exact %r' % (filt, t, np.asarray(s.pa.w) - np.max(s.pa.w), lw - np.max(lw)), **ctx)
        r.outcome((filt, tuple(flags)))
    r.add(st)


def tasks():
    out = []
    for filt in ('pf', 'apf'):
        for size in (40.0, 800.0, -800.0, 5000.0):
            for res in (0.0, 0.3):
                for v in (0, 1):
                    out.append(('f_extreme', dict(filt=filt, N=2, T=4, variant=v, res=res, size=size, dev=None if res == 0.0 else 5)))
                    out.append(('f_extreme', dict(filt=filt, N=3, T=3, variant=v, res=res, size=size, dev=5)))
    for sm in range(len(SM)):
        for variant in ((0, 1) if not THOROUGH else (0, 1, 2, 3)):
            out.append(('f_smoother', dict(sm=sm, variant=variant, T=3 if SM[sm][0] in ('full', 'mcmc', 'ancestor') else 2, M=1)))
            if SM[sm][0] in ('full', 'rs', 'rsas', 'mcmc', 'ancestor'):
                out.append(('f_smoother', dict(sm=sm, variant=variant, T=2, M=2)))
    for filt in FILTERS:
        for y0 in (True, False):
            for variant in ((0,) if not THOROUGH else (0, 1, 2)):
                for res in ((0.0, 0.67, 0.95) if filt in FILTERS[:4] else (0.67,)):
                    out.append(('f_filter', dict(filt=filt, N=2, variant=variant, T=3, res=res, y0=y0)))
        for res in ((0.0, 0.67) if filt in FILTERS[:4] else (0.67,)):
            for pol in ('first', 'last', 'cycle', 'quad'):
                for per in (-50.0, -4000.0, 60.0, 4000.0, 'grow'):
                    out.append(('f_long', dict(filt=filt, N=3, res=res, pol=pol, T=300 if not THOROUGH else 900, per=per)))
    return out
