"""C28: instrumentation is transparent and counts every operation."""
import contextlib
import inspect
import io
import itertools
import re
import numpy as np
from lib import seam, hmm, gauss, mix, hier
from lib.env import THOROUGH
from checks.c08 import ref_traj

CONFS = ('pure', 'ext')

# requested particles per model operation: counter and the arguments it is taken from
OPS = {
    'sample_process_noise_full': ('cnt_sample', ('ancestors',)),
    'update_full': ('cnt_update', ('particles',)),
    'measure_full': ('cnt_measure', ('particles',)),
    'logp_xnext': ('cnt_pdfxn', ('particles', 'next_part')),
    'logp_xnext_full': ('cnt_pdfxn', ('part', 'find')),
    'logp_xnext_singlestep': ('cnt_pdfxn', ('part', 'find')),
    'logp_xnext_max_full': ('cnt_pdfxnmax', ('part',)),
    'propose_smooth': ('cnt_propsmooth', None),
    'logp_proposal': ('cnt_pdfsmooth', ('prop_part',)),
    'eval_1st_stage_weights': ('cnt_eval1st', ('particles',)),
    'eval_logp_x0': ('cnt_eval_logp_x0', ('particles',)),
}
COUNTERS = sorted(set(v[0] for v in OPS.values()))


class Spy(object):
    """Stands in front of a model and counts what the library requests from it."""

    def __init__(self, model):
        self.__dict__['_m'] = model
        self.__dict__['_n'] = dict((c, 0) for c in COUNTERS)
        self.__dict__['_log'] = []

    def __setattr__(self, name, value):
        setattr(self._m, name, value)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(self.__dict__['_m'], name)
        if name not in OPS:
            return f
        cnt, names = OPS[name]
        sig = inspect.signature(f)

        def g(*a, **k):
            v = sig.bind(*a, **k).arguments
            if names is None:
                n = len(v['anc']) if v.get('ptraj') is not None else len(v['find'])
            else:
                ls = list(v.values())
                # by position within the interface: names differ between models
                get = lambda x: v[x] if x in v else ls[list(sig_ref(name)).index(x)]
                n = max(len(get(x)) for x in names)
            self._n[cnt] += n
            return f(*a, **k)
        return g


def sig_ref(name):
    from pyparticleest.utils.intrument import Instrumenter
    from pyparticleest import interfaces
    for c in (interfaces.ParticleFiltering, interfaces.AuxiliaryParticleFiltering, interfaces.FFBSiRS, interfaces.SampleProposer):
        if hasattr(c, name):
            return [p for p in inspect.signature(getattr(c, name)).parameters if p != 'self']
    return [p for p in inspect.signature(getattr(Instrumenter, name)).parameters if p != 'self']


def result(sim):
    out = []
    for s in sim.pt.traj:
        out += [np.array(s.pa.part, dtype=float), np.array(s.pa.w, dtype=float), np.array(s.ancestors)]
    if sim.straj is not None:
        for s in sim.straj.traj:
            out.append(np.array(s.pa.part, dtype=float))
    return out


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def printed(oc_model):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        oc_model.print_statistics()
    stats = dict((k, int(v)) for k, v in re.findall(r'(cnt_\w+)\s*:\s*(-?\d+)', buf.getvalue()))
    buf2 = io.StringIO()
    with contextlib.redirect_stdout(buf2):
        oc_model.print_total_ops()
    m = re.search(r'(-?\d+)', buf2.getvalue())
    return stats, (int(m.group(1)) if m else None)


def count(oc, c):
    v = getattr(oc, c)
    if c == 'cnt_pdfxn':
        v += getattr(oc, 'cnt_pdfxn_full', 0)
    return v


def make(kind, k, T, mf, missing):
    """(model factory, inputs, measurements)."""
    if kind == 'hmm':
        spec = hmm.Spec(S=2, T=T, variant=k, y0=mf, missing=missing)
        return (lambda: hmm.make_model(spec)), spec.u[:T - 1], (spec.y if mf else spec.y[1:])
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    if kind == 'hier':
        S = hier.Hier(1, 1, 1, hier.configs()[-1 - k])
        f, yd = S.make, 2
    elif kind == 'nlg':
        from checks import c14
        a = [('fun', 'fun', 'const', 'const'), ('fun', 'fun', 'part', 'part')][k % 2]
        f, yd = (lambda: c14.make(1, 1, *a, x0=gauss.vec(1, 1).reshape(-1, 1), Px0=gauss.spd(1, 1), lxi=1)), 1
    elif kind == 'ltv':
        from checks import c21
        S = c21.PSys(2, 1, dict(zip('AfQChR', 'cccccc' if k == 1 else 'tttttt')), ())
        f, yd = S.model, 1
    else:
        S = mix.Mix(1, 1, 1, mix.configs()[k])
        f, yd = (lambda: S.make('sampled' if kind == 'mix' else 'marg')), 1
    ys = [None if t in missing else gauss.yvec(yd, t).reshape(-1, 1) for t in range(0 if mf else 1, T)]
    return f, us, ys


def f_run(r, kind, k, filt, sm, opts, N, M, T, mf, missing=(), dev=2):
    from pyparticleest.simulator import Simulator
    from pyparticleest.utils.intrument import Instrumenter
    factory, us, ys = make(kind, k, T, mf, missing)
    fo = {'cond_traj': ref_traj([t % 2 for t in range(T)])} if filt in ('cpf', 'cpfas') else None
    cp = lambda l: [None if v is None else np.array(v, copy=True) if isinstance(v, np.ndarray) else v for v in l]

    def go(model):
        kw = {'filter_options': fo} if fo else {}
        sim = Simulator(model, cp(us), cp(ys))
        n = sim.simulate(N, M, filter=filt, smoother=sm, smoother_options=opts, res=0.67, meas_first=mf, **kw)
        return result(sim), n

    def bare(c):
        s = Spy(factory())
        return go(s), s._n

    def wrapped(c):
        inner = Spy(factory())
        i = Instrumenter(inner)
        if any(count(i.oc, x) for x in COUNTERS):
            raise AssertionError('counters of a fresh instrumenter are not zero')
        return go(i), inner._n, i
    st = seam.Stats()
    lazy = kind == 'hmm'
    cells = seam.make_cells((), 4)
    n = 0

    def setup(c):
        c.lazy = lazy
    for p, ch, ((res, cnt), want) in seam.explore(bare, cells=cells, normal='pm1', stats=st, dev=dev, lazy=lazy):
        ctx = dict(filter=filt, smoother=sm, choices=ch)
        try:
            _, ch2, ((res2, cnt2), inner, ins) = seam.replay(wrapped, ch, cells=cells, normal='pm1', ctl_setup=setup)
        except seam.Divergence as e:
            return r.fail('transparent', 'the instrumented run makes other random choices (%s)' % e, **ctx)
        n += 1
        r.states += 1
        r.executions += 1
        if ch2 != ch or not equal(res, res2) or cnt != cnt2:
            return r.fail('transparent', 'the instrumented run gives another result', **ctx)
        got = dict((c, count(ins.oc, c)) for c in COUNTERS)
        if got != want:
            return r.fail('count', 'counters %r, requested %r' % (dict((c, v) for c, v in got.items() if v != want[c]), dict((c, v) for c, v in want.items() if v != got[c])), **ctx)
        if inner != want:
            return r.fail('transparent', 'operations that reach the model %r, requested %r' % (inner, want), **ctx)
        stats, total = printed(ins)
        for c, v in stats.items():
            if c in want and v != want[c]:
                return r.fail('print', 'printed %s: %d, counted %d' % (c, v, want[c]), **ctx)
        if not stats:
            return r.fail('print', 'no statistics printed', **ctx)
        if total != sum(stats.values()):
            return r.fail('print', 'total %r, sum of the printed counts %r' % (total, sum(stats.values())), **ctx)
        r.outcome(repr(sorted(want.items())))
    r.add(st)
    r.sample(kind=kind, filter=filt, smoother=sm, executions=n, counts=want)


def f_sum(r):
    """Adding operation counts adds every counter; the operands stay as they are."""
    from pyparticleest.utils.intrument import OpCount
    names = [p for p in inspect.signature(OpCount.__init__).parameters if p != 'self']
    for c in COUNTERS:
        if c not in names:
            return r.fail('sum', 'OpCount lacks %s' % c)
    for i, j in itertools.product(range(len(names) + 1), repeat=2):
        a = dict((n, (3 * k + 1) if i == len(names) else (5 if k == i else 0)) for k, n in enumerate(names))
        b = dict((n, (7 * k + 2) if j == len(names) else (11 if k == j else 0)) for k, n in enumerate(names))
        A, B = OpCount(**a), OpCount(**b)
        C = A + B
        r.states += 1
        r.executions += 1
        r.transitions += 1
        for n in names:
            if getattr(C, n) != a[n] + b[n] or getattr(A, n) != a[n] or getattr(B, n) != b[n]:
                return r.fail('sum', '%s: %r + %r = %r' % (n, a[n], b[n], getattr(C, n)))
    r.outcome('sum')


SMS = [('full', None), ('rs', {'R': 1}), ('rsas', None), ('mcmc', {'R': 1}), ('mhips', {'R': 1}), ('mhips_reduced', {'R': 1}), ('mhbp', {'R': 1}), ('ancestor', None), (None, None)]


def tasks():
    out = [('f_sum', {})]
    for filt in ('pf', 'apf', 'cpf', 'cpfas'):
        for k, (s, o) in enumerate(SMS):
            for mf in (True, False):
                d = 3 if THOROUGH else (1 if s in ('mhips', 'mhbp') else 2)
                out.append(('f_run', dict(kind='hmm', k=1, filt=filt, sm=s, opts=o, N=2, M=2, T=3 if s not in ('mhips', 'mhips_reduced', 'mhbp') else 2, mf=mf, dev=d)))
            out.append(('f_run', dict(kind='hmm', k=2, filt=filt, sm=s, opts=o, N=3, M=1, T=3, mf=True, dev=2 if THOROUGH else 1)))
            out.append(('f_run', dict(kind='hmm', k=0, filt=filt, sm=s, opts=o, N=1, M=3, T=2, mf=True, dev=2 if THOROUGH else 1)))
            out.append(('f_run', dict(kind='hmm', k=0, filt=filt, sm=s, opts=o, N=2, M=2, T=3, mf=True, missing=(1,), dev=2 if THOROUGH else 1)))
    for kind, sms in (('mix', SMS[:8]), ('marg', [SMS[0], SMS[3], SMS[7]]), ('hier', [SMS[0], SMS[1], SMS[2], SMS[3], SMS[7]]),
                      ('nlg', [SMS[0], SMS[1], SMS[2], SMS[3], SMS[7]]), ('ltv', [SMS[0], SMS[3]])):
        for (s, o) in sms:
            for mf in (True, False):
                for k in (1, 3):
                    out.append(('f_run', dict(kind=kind, k=k, filt='pf', sm=s, opts=o, N=2, M=2, T=3, mf=mf, missing=(1,) if k == 3 else (), dev=2 if THOROUGH else 1)))
    for s, o in (SMS[0], SMS[3]):
        out.append(('f_run', dict(kind='nlg', k=1, filt='apf', sm=s, opts=o, N=2, M=2, T=3, mf=True, dev=1)))
    return out
