"""C23: the EM driver follows its protocol (trace equality with an independent driver)."""
import itertools
import numpy as np
from lib import seam, em
from lib.env import THOROUGH

CONFS = ('pure',)


def ref_run(T, mf, alphabet, param0, nump, numt, max_iter, filt, sm, opts):
    from pyparticleest.simulator import Simulator
    ev = []
    model = em.EMModel(T, mf, alphabet, [])
    p = np.array(param0, dtype=float)
    for i in range(max_iter):
        sim = Simulator(model, em.U[:T - 1], em.Y[:T] if mf else em.Y[1:T])
        sim.set_params(p)
        kw = {} if opts is None else {'smoother_options': dict(opts)}
        sim.simulate(int(em.sched(nump, i)), int(em.sched(numt, i)), filter=filt, smoother=sm, meas_first=mf, **kw)
        it = {'param': tuple(p.tolist()), 'pt': em.pt_key(sim.pt), 'straj': em.straj_key(sim.straj)}
        p = np.array(model.maximize(sim.straj), dtype=float)
        it['new'] = tuple(p.tolist())
        ev.append(it)
    return ev, p


def f_em(r, filt, sm, opts, T, mf, nump, numt, max_iter, cbs, alphabet, dev, reuse=False, npar='list'):
    from pyparticleest.paramest.paramest import ParamEstimation
    conv = {'list': list, 'tuple': tuple, 'array': np.asarray}[npar]
    nump = nump if np.isscalar(nump) else conv(nump)
    numt = numt if np.isscalar(numt) else conv(numt)
    st = seam.Stats()
    param0 = np.asarray([float(alphabet[-1]), -1.0])

    def body(c):
        ev = []
        model = em.EMModel(T, mf, alphabet, ev, reuse)
        d = em.driver(ParamEstimation, model, T, mf, ev)
        kw = {}
        if cbs & 1:
            kw['callback_sim'] = lambda s: ev.append(('sim', s is d, em.pt_key(s.pt), em.straj_key(s.straj)))
        if cbs & 2:
            kw['callback'] = lambda params, Q, cur_iter: ev.append(('cb', tuple(np.asarray(params).tolist()), int(cur_iter)))
        if opts is not None:
            kw['smoother_options'] = dict(opts)
        # at the time of maximisation the driver holds the filter history of this iteration
        orig = model.maximize

        def mx(straj):
            ev.append(('pt', em.pt_key(d.pt)))
            return orig(straj)
        model.maximize = mx
        p0 = param0.copy()
        out = d.maximize(p0, nump, numt, max_iter=max_iter, filter=filt, smoother=sm, meas_first=mf, **kw)
        if not np.array_equal(p0, param0):
            ev.append(('param0', p0))
        return ev, tuple(np.asarray(out[0], dtype=float).tolist())

    def setup(c):
        c.lazy = True
    n = 0
    for p, ch, (ev, out) in seam.explore(body, stats=st, lazy=True, dev=dev, cells=seam.make_cells((), 3)):
        n += 1
        ctx = dict(choices=ch, filter=filt, smoother=sm)
        try:
            _, ch2, (want, pend) = seam.replay(lambda c: ref_run(T, mf, alphabet, param0, nump, numt, max_iter, filt, sm, opts), ch,
                                               cells=seam.make_cells((), 3), ctl_setup=setup)
        except seam.Divergence as e:
            return r.fail('trace', 'the driver does not make the random choices of %d plain iterations (%s)' % (max_iter, e), **ctx)
        bad = judge(ev, out, want, tuple(pend.tolist()), nump, max_iter, cbs)
        if bad:
            return r.fail(bad[0], bad[1], events=[e[:2] for e in ev][:40], **ctx)
        if ch2 != ch:
            return r.fail('trace', 'the driver made %d random choices, %d plain iterations make %d' % (len(ch), max_iter, len(ch2)), **ctx)
        r.outcome(repr([w['new'] for w in want]) + repr([w['straj'] for w in want]))
        r.states += max_iter + 1
    r.add(st)
    r.sample(filter=filt, smoother=sm, T=T, max_iter=max_iter, executions=n)


def judge(ev, out, want, pend, nump, max_iter, cbs):
    it = 0
    phase = 'start'          # start -> run -> (sim) -> max -> (cb) -> start
    cb0 = None
    ptk = None
    for e in ev:
        k = e[0]
        if it >= len(want) and k not in ('set', 'call'):
            return 'iterations', 'more than %d iterations (%r)' % (max_iter, k)
        if k == 'param0':
            return 'param0', "the caller's initial parameters were changed to %r" % (e[1],)
        if k == 'call' and it < len(want) and phase in ('start', 'run'):
            # the model works for the simulation of iteration `it`
            if e[1] != want[it]['param']:
                return 'params', 'iteration %d simulated with parameters %r, expected %r' % (it, e[1], want[it]['param'])
            phase = 'run'
        elif k == 'sim':
            if phase != 'run' or not cbs & 1:
                return 'order', 'callback after simulation in phase %r' % phase
            if not e[1] or e[2] != want[it]['pt'] or e[3] != want[it]['straj']:
                return 'simulation', 'iteration %d: the simulation seen by the callback differs from one simulation with the given settings' % it
            phase = 'sim'
        elif k == 'pt':
            ptk = e[1]
        elif k == 'max':
            if phase != ('sim' if cbs & 1 else 'run'):
                return 'order', 'maximisation in phase %r' % phase
            if ptk != want[it]['pt']:
                return 'simulation', 'iteration %d: the filter history differs from one simulation with the given settings' % it
            if e[1] != want[it]['straj']:
                return 'straj', 'iteration %d: maximisation got other trajectories than the simulation produced' % it
            phase = 'max'
            if not cbs & 2:
                phase, it = 'start', it + 1
        elif k == 'cb':
            if phase != 'max':
                return 'order', 'callback in phase %r' % phase
            if e[1] != want[it]['new']:
                return 'callback', 'iteration %d: callback got %r, maximisation returned %r' % (it, e[1], want[it]['new'])
            if cb0 is None:
                cb0 = e[2]
            if e[2] != cb0 + it:
                return 'callback', 'callback of iteration %d numbered %d' % (it, e[2])
            phase, it = 'start', it + 1
    if it != max_iter:
        return 'iterations', '%d iterations instead of %d' % (it, max_iter)
    if out != pend:
        return 'result', 'returned %r, last maximisation %r' % (out, pend)
    return None


FS = [('pf', 'full', None), ('apf', 'mcmc', {'R': 1}), ('sir', 'ancestor', None), ('pfy', 'rs', {'R': 1}),
      ('pf', 'rsas', None), ('pf', 'mhips', {'R': 1}), ('apf', 'mhbp', {'R': 2}), ('PF', 'full', None),
      ('pf', 'mcmc', {'R': 2}), ('pf', 'rsas', {'ratio': 3.0, 'x1': 2.0}), ('pf', 'mhips_reduced', {'R': 1})]


def tasks():
    out = []
    d = 3 if THOROUGH else 2
    for (f, s, o) in FS:
        heavy = s in ('mhbp', 'mhips') or o == {'R': 2}
        d = (2 if THOROUGH else 1) if heavy else 3 if THOROUGH else 2
        for mf in (True, False):
            out.append(('f_em', dict(filt=f, sm=s, opts=o, T=3, mf=mf, nump=2, numt=2, max_iter=3, cbs=3, alphabet=(0, 1), dev=d)))
            out.append(('f_em', dict(filt=f, sm=s, opts=o, T=2, mf=mf, nump=[2, 3], numt=[1, 2, 3], max_iter=4, cbs=3, alphabet=(0, 1, 2), dev=d if THOROUGH else 1)))
    d = 3 if THOROUGH else 2
    scheds = [(2, [1, 2]), ([3, 2], 1), ([2], [3]), ([3, 2, 1, 4], [2, 1, 3, 1]), ([2, 3, 4], [1]), ([1, 3], 2), (3, 1), ([2, 3], [1, 2, 3, 1]), ([3, 2, 1, 2], [2, 1])]
    for (n, m) in scheds:
        for mi in (0, 1, 2, 3, 5):
            for cbs in range(4):
                out.append(('f_em', dict(filt='pf', sm='full', opts=None, T=2, mf=True, nump=n, numt=m, max_iter=mi, cbs=cbs,
                                         alphabet=(0, 1), dev=1 if mi == 5 else d, npar=('list', 'tuple', 'array')[(mi + cbs) % 3])))
    # many iterations along fixed schedules
    for k, (f, s, o) in enumerate(FS):
        out.append(('f_em', dict(filt=f, sm=s, opts=o, T=(3, 5, 4)[k % 3], mf=bool(k % 2), nump=[5, 3, 4, 6, 2, 3, 7], numt=[4, 2, 6, 1, 5], max_iter=(11, 14, 17)[k % 3],
                                 cbs=(3, 1, 2, 0)[k % 4], alphabet=(0, 1, 2), dev=list(range(2 if not THOROUGH else 10)))))
    for mi in (2, 4):
        out.append(('f_em', dict(filt='pf', sm='full', opts=None, T=2, mf=True, nump=2, numt=1, max_iter=mi, cbs=0, alphabet=(0, 1, 2), dev=d)))
    if THOROUGH:
        for mi in (8, 12):
            out.append(('f_em', dict(filt='pf', sm='full', opts=None, T=3, mf=True, nump=[3, 2], numt=[1, 2], max_iter=mi, cbs=3, alphabet=(0, 1), dev=2)))
        for (f, s, o) in FS:
            out.append(('f_em', dict(filt=f, sm=s, opts=o, T=4, mf=True, nump=[3, 2], numt=[2, 1], max_iter=3, cbs=3, alphabet=(0, 1), dev=2)))
    return out
