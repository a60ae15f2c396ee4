"""C07: missing measurements carry no information, in every filter and smoother."""
import itertools
import numpy as np
from lib import seam, hmm, steps, smooth
from lib.env import THOROUGH
from checks import c03, c04, c08, c09, c10, c11

CONFS = ('pure',)

# every task of the other laws is run with every pattern of missing measurements; the model raises if
# its likelihood is evaluated for a missing measurement
f_run = c03.f_run
f_step = c04.f_step
f_cstep = c08.f_step
f_gibbs = c09.f_gibbs
f_bs = c10.f_bs
f_maps = c11.f_maps
f_lines = c11.f_lines


def subsets(n, first=0):
    out = []
    for k in range(1, n - first + 1):
        out.extend(itertools.combinations(range(first, n), k))
    return out


def f_simulate(r, filt, smoother, T, missing, meas_first):
    """The simulator with missing measurements: pairing of the remaining data is kept, and the law of
    the whole run is that of a model whose likelihood is constant at those times."""
    from pyparticleest.simulator import Simulator
    spec = hmm.Spec(S=2, T=T, variant=1, y0=meas_first, missing=missing)
    model = hmm.make_model(spec)
    opts = {}
    if filt in ('cpf', 'cpfas'):
        opts['cond_traj'] = c08.ref_traj([t % 2 for t in range(T)])
    full = hmm.Spec(S=2, T=T, variant=1, y0=meas_first)
    model2 = hmm.make_model(full)
    orig = model2.measure

    def measure(particles, y, t):
        if int(t) in missing:
            return np.zeros(len(particles))
        return orig(particles, y, t)
    model2.measure = measure

    q = full.qsmooth
    full.qsmooth = lambda t, xp, xn, y: q(t, xp, xn, None if int(t) in missing else y)
    st = seam.Stats()

    def law(m, y):
        def body(c):
            sim = Simulator(m, spec.u[:T - 1], y if meas_first else y[1:])
            sim.simulate(2, 1, filter=filt, filter_options=opts, smoother=smoother, smoother_options={'R': 1}, res=0.67, meas_first=meas_first)
            return sim
        d = {}
        for p, ch, sim in seam.explore(body, stats=st, lazy=True):
            k = (tuple(steps.states_of(s.pa) for s in sim.pt.traj), tuple(tuple(np.round(hmm.nw(s.pa.w), 7)) for s in sim.pt.traj),
                 tuple(steps.states_of(s.pa) for s in sim.straj.traj))
            d[k] = d.get(k, 0.0) + p
            r.outcome(k[2])
        return d
    base = law(model2, full.y)
    got = law(model, spec.y)
    if not smooth.dist(base, got) < 1e-9:
        return r.fail('simulate:%s:%s' % (filt, smoother), 'with missing %r the law of the run is not that of a constant likelihood' % (missing,),
                      got={repr(k): v for k, v in got.items()}, exact={repr(k): v for k, v in base.items()})
    n = len(got)
    r.states += n
    r.add(st)
    r.sample(filter=filt, smoother=smoother, missing=missing, executions=st.executions)


def tasks():
    out = []
    vs = (0, 1) if not THOROUGH else (0, 1, 2, 3)
    for v in vs:
        for filt in ('pf', 'apf'):
            for miss in subsets(4):
                for res in ((0.67,) if not THOROUGH else (0.0, 0.67, 0.95)):
                    out.append(('f_run', dict(filt=filt, N=2, S=2, variant=v, T=4, res=res, y0=True, missing=miss)))
                    if 0 not in miss:
                        out.append(('f_run', dict(filt=filt, N=2, S=2, variant=v, T=4, res=res, y0=False, missing=miss)))
            for miss in ((1,), (2,), (1, 2), (0,), (0, 2)):
                out.append(('f_step', dict(filt=filt, N=2, S=2, variant=v, k=1, res=0.67, missing=miss)))
        for filt in ('cpf', 'cpfas'):
            out.append(('f_cstep', dict(filt=filt, N=2, S=2, variant=v, k=0, missing=(1,))))
            out.append(('f_cstep', dict(filt=filt, N=2, S=2, variant=v, k=1, missing=(2,))))
            out.append(('f_cstep', dict(filt=filt, N=3, S=2, variant=v, k=1, missing=(2,))))
            for miss in subsets(3):
                for sm in ('ancestor', 'full'):
                    out.append(('f_gibbs', dict(filt=filt, T=3, variant=v, y0=True, smoother=sm, missing=miss)))
        for miss in subsets(3):
            for meth in ('full', 'rs', 'rsas'):
                out.append(('f_bs', dict(method=meth, opts={'R': 1}, T=3, N=2, S=2, M=1, variant=v, wsel=v, missing=miss, every=7)))
        for meth in c11.METHODS:
            for miss in subsets(2):
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=2, M=1, variant=v, missing=miss)))
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=2, S=2, M=2, variant=v, missing=miss)))
            for miss in subsets(3):
                out.append(('f_maps', dict(method=meth, opts={'R': 1}, T=3, S=2, M=1, variant=v, missing=miss)))
            out.append(('f_lines', dict(method=meth, opts={'R': 1}, T=2, M=1, variant=v, missing=(1,))))
            out.append(('f_lines', dict(method=meth, opts={'R': 1}, T=2, M=1, variant=v, missing=(0,))))
    for filt in ('pf', 'cpf', 'cpfas'):
        for sm in ('full', 'ancestor', 'mcmc', 'mhips', 'mhips_reduced', 'rs', 'rsas', 'mhbp'):
            for mf in (True, False):
                for miss in subsets(2, 0 if mf else 1):
                    out.append(('f_simulate', dict(filt=filt, smoother=sm, T=2, missing=miss, meas_first=mf)))
    return out[::-1]
