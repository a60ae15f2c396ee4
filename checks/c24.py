"""C24: stochastic-approximation EM keeps an exactly weighted trajectory archive."""
import copy
import itertools
import numpy as np
from lib import seam, em, hmm
from lib.env import THOROUGH
from checks.c08 import ref_traj

CONFS = ('pure',)
TOL = 1e-9


class Alpha(object):
    """Step sizes: the value of every index is an explored choice from a finite alphabet."""

    def __init__(self, alphabet, fixed=None):
        self.alphabet = alphabet
        self.tab = {}
        self.fixed = fixed

    def __call__(self, i):
        i = int(i)
        if self.fixed is not None:
            return self.fixed[min(i, len(self.fixed) - 1)]
        if i not in self.tab:
            a = self.alphabet if i > 0 else [x for x in self.alphabet if x > 0]
            self.tab[i] = a[seam.pick([1.0 / len(a)] * len(a))]
        return self.tab[i]


def columns(straj):
    P = [np.asarray(s.pa.part, dtype=float) for s in straj.traj]
    return [tuple(tuple(p[j].tolist()) for p in P) for j in range(len(P[0]))]


def lines(pt):
    """Ancestral path of every particle of the last filter step."""
    tr = pt.traj
    out = []
    for j in range(len(tr[-1].pa.part)):
        i = j
        path = []
        for t in range(len(tr) - 1, -1, -1):
            path.append(tuple(np.asarray(tr[t].pa.part, dtype=float)[i].tolist()))
            if t:
                i = int(tr[t].ancestors[i])
        out.append(tuple(reversed(path)))
    return out


def ref_options(fo):
    return None if fo is None else {'cond_traj': ref_traj(fo)}


def ref_run(variant, T, mf, alphabet, param0, nump, numt, max_iter, filt, sm, fo, opts, alpha, rb):
    """Independent loop; the archive is judged afterwards from what it recorded."""
    from pyparticleest.simulator import Simulator
    model = em.EMModel(T, mf, alphabet, [])
    p = np.array(param0, dtype=float)
    its = []
    f_opts = ref_options(fo) or {}
    for i in range(max_iter):
        sim = Simulator(model, em.U[:T - 1], em.Y[:T] if mf else em.Y[1:T])
        sim.set_params(p)
        kw = {} if opts is None else {'smoother_options': dict(opts)}
        sim.simulate(int(em.sched(nump, i)), int(em.sched(numt, i)), filter=filt, filter_options=f_opts, smoother=sm, meas_first=mf, **kw)
        if rb:
            new = list(zip(lines(sim.pt), hmm.nw(sim.pt.traj[-1].pa.w).tolist()))
        else:
            cols = columns(sim.straj)
            new = [(c, 1.0 / len(cols)) for c in cols]
        a = alpha(i)
        it = {'param': tuple(p.tolist()), 'pt': em.pt_key(sim.pt), 'straj': em.straj_key(sim.straj), 'new': new, 'alpha': a}
        if variant != 'SAEM':
            f_opts = {'cond_traj': copy.deepcopy(sim.straj.traj)}
        p = np.array(model._new(), dtype=float)
        it['next'] = tuple(p.tolist())
        its.append(it)
    return its, p


def advance(arch, it, first, variant, eps, perc, max_traj, obs):
    """Expected archive after the iteration; returns (complaint, new archive)."""
    a = it['alpha']
    L = [(t, (1.0 - a) * w) for t, w in arch] + [(t, w if first else a * w) for t, w in it['new']]
    w = np.asarray([x[1] for x in L])
    w = w / w.sum()
    if variant == 'SAEM':
        state = [0 if x == 0.0 else 1 for x in w]
    else:
        q = np.percentile(w, perc)
        state = []
        for x in w:
            if x <= 0.0:
                s = 0
            elif eps > 0.0 and perc > 0:
                if x < eps - TOL and x < q - TOL:
                    s = 0
                elif x > eps + TOL or x > q + TOL:
                    s = 1
                else:
                    s = 2         # on the boundary: both are right
            else:
                s = 1
            state.append(s)
    amb = [k for k, s in enumerate(state) if s == 2]
    best = None
    # as many boundary elements may go as there are; equal elements are interchangeable
    for drop in itertools.product((False, True), repeat=min(len(amb), 8)):
        gone = set(k for k, d in zip(amb, drop) if d)
        keep = [k for k, s in enumerate(state) if s and k not in gone]
        if max_traj > 0 and len(keep) > max_traj:
            keep = keep[-max_traj:]
        tot = sum(w[k] for k in keep)
        if not tot > 0:
            continue
        new = [(L[k][0], w[k] / tot) for k in keep]
        bad = compare(obs, new)
        if bad is None:
            return None, new
        best = best or bad
    return best or 'nothing left', None


def compare(obs, new):
    if obs and obs[0] == 'bad':
        return 'trajectories and weights of shapes %r, %r' % (obs[1], obs[2])
    if len(obs) != len(new):
        return '%d trajectories in the archive, expected %d' % (len(obs), len(new))
    A = sorted(obs)
    B = sorted(new)
    for (t, w), (t2, w2) in zip(A, B):
        if t != t2:
            return 'archive holds %r, expected %r' % (t, t2)
        if not abs(w - w2) <= TOL:
            return 'weight %r of trajectory %r, expected %r' % (w, t, w2)
    return None


def f_saem(r, variant, filt, sm, opts, T, mf, nump, numt, max_iter, alphas, fo=None, eps=0.0, perc=0, max_traj=0,
           rb=False, cb=3, stop=None, alphabet=(0, 1), dev=1, fixed=None, reuse=False):
    from pyparticleest.paramest import paramest
    cls = {'SAEM': paramest.ParamEstimationSAEM, 'PSAEM': paramest.ParamEstimationPSAEM, 'PSAEM2': paramest.ParamEstimationPSAEM2}[variant]
    param0 = np.asarray([float(alphabet[-1]), -1.0])
    st = seam.Stats()
    its = max_iter if stop is None else stop

    def body(c):
        ev = []
        model = em.EMModel(T, mf, alphabet, ev, reuse)
        d = em.driver(cls, model, T, mf, ev)
        kw = {}
        if cb & 1:
            kw['callback_sim'] = lambda s: ev.append(('sim', s is d, em.pt_key(s.pt), em.straj_key(s.straj)))
        if cb & 2:
            def callback(params, Q, cur_iter):
                ev.append(('cb', tuple(np.asarray(params).tolist()), int(cur_iter)))
                # the user's stopping rule of PSAEM
                return sum(1 for e in ev if e[0] == 'cb') >= its
            kw['callback'] = callback
        orig = model.maximize_weighted

        def mx(straj, alltrajs, weights):
            ev.append(('pt', em.pt_key(d.pt)))
            return orig(straj, alltrajs, weights)
        model.maximize_weighted = mx
        kw['alpha_gen'] = Alpha(alphas, fixed)
        if variant == 'SAEM':
            kw.update(num_traj=numt, smoother_options=None if opts is None else dict(opts))
        elif variant == 'PSAEM':
            kw.update(M=numt, raoblackwell=rb, discard_eps=eps, discard_percentile=perc, max_traj=max_traj)
        else:
            kw.update(smoother_options=None if opts is None else dict(opts), discard_eps=eps, discard_percentile=perc)
        out = d.maximize(param0.copy(), num_part=nump, max_iter=max_iter, filter=filt, filter_options=ref_options(fo) or {},
                         smoother=sm, meas_first=mf, **kw)
        return ev, tuple(np.asarray(out[0], dtype=float).tolist())

    def setup(c):
        c.lazy = True
    cells = seam.make_cells((), 3)
    n = 0
    for p, ch, (ev, out) in seam.explore(body, stats=st, lazy=True, dev=dev, cells=cells):
        n += 1
        ctx = dict(choices=ch, variant=variant, filter=filt, smoother=sm)
        try:
            _, ch2, (want, pend) = seam.replay(
                lambda c: ref_run(variant, T, mf, alphabet, param0, nump, numt, its, filt, sm, fo, opts, Alpha(alphas, fixed), rb),
                ch, cells=cells, ctl_setup=setup)
        except seam.Divergence as e:
            return r.fail('trace', 'the driver does not make the random choices of %d plain iterations (%s)' % (its, e), **ctx)
        bad = judge(ev, out, want, tuple(pend.tolist()), cb, variant, eps, perc, max_traj)
        if bad:
            return r.fail(bad[0], bad[1], alphas=[w['alpha'] for w in want], **ctx)
        if ch2 != ch:
            return r.fail('trace', 'the driver made %d random choices, %d plain iterations make %d' % (len(ch), its, len(ch2)), **ctx)
        r.outcome(repr([(w['alpha'], w['straj']) for w in want]))
        r.states += its
    r.add(st)
    r.sample(variant=variant, filter=filt, smoother=sm, T=T, max_iter=max_iter, executions=n)


def judge(ev, out, want, pend, cb, variant, eps, perc, max_traj):
    it = 0
    arch = []
    ptk = None
    cb0 = None
    phase = 'run'
    for e in ev:
        k = e[0]
        if k in ('set', 'pt', 'call'):
            if k == 'pt':
                ptk = e[1]
            if k == 'call' and it < len(want) and phase == 'run' and e[1] != want[it]['param']:
                return 'params', 'iteration %d simulated with parameters %r, expected %r' % (it, e[1], want[it]['param'])
            continue
        if it >= len(want):
            return 'iterations', 'more than %d iterations' % len(want)
        w = want[it]
        if k == 'sim':
            if not e[1] or e[2] != w['pt'] or e[3] != w['straj']:
                return 'simulation', 'iteration %d: not one simulation with the given settings and the expected reference trajectory' % it
        elif k == 'maxw':
            if phase != 'run':
                return 'order', 'maximisation in phase %r' % phase
            if ptk != w['pt']:
                return 'simulation', 'iteration %d: the filter history differs from one simulation with the given settings and the expected reference trajectory' % it
            if e[1] != w['straj']:
                return 'straj', 'iteration %d: maximisation got another smoothed trajectory than the simulation produced' % it
            bad, arch = advance(arch, w, it == 0, variant, eps, perc, max_traj, e[2])
            if bad:
                return 'archive', 'iteration %d: %s' % (it, bad)
            phase = 'cb'
            if not cb & 2:
                phase, it = 'run', it + 1
        elif k == 'max':
            return 'order', 'unweighted maximisation'
        elif k == 'cb':
            if phase != 'cb' or e[1] != w['next']:
                return 'callback', 'iteration %d: callback got %r, maximisation returned %r' % (it, e[1], w['next'])
            if cb0 is None:
                cb0 = e[2]
            if e[2] != cb0 + it:
                return 'callback', 'callback of iteration %d numbered %d' % (it, e[2])
            phase, it = 'run', it + 1
    if it != len(want):
        return 'iterations', '%d iterations instead of %d' % (it, len(want))
    if out != pend:
        return 'result', 'returned %r, last maximisation %r' % (out, pend)
    return None


def f_alpha(r, n):
    """Default step sizes: positive, at most one, non-increasing, exponent in (1/2, 1]."""
    from pyparticleest.paramest.paramest import alpha_gen
    prev = 1.0
    for i in range(n):
        a = float(alpha_gen(i))
        r.states += 1
        r.executions += 1
        r.transitions += 1
        if not 0.0 < a <= prev:
            return r.fail('alpha', 'step size %d is %r after %r' % (i, a, prev))
        prev = a
    for k in (10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7):
        e = -np.log(float(alpha_gen(2 * k)) / float(alpha_gen(k))) / np.log(2.0)
        if not 0.5 < e <= 1.0 + 1e-2:
            return r.fail('alpha', 'step sizes decay with exponent %r around %d' % (e, k))
    r.outcome('alpha')


def tasks():
    A3 = (1.0, 0.5, 0.25)
    A4 = (0.5, 1.0, 0.25, 0.0)
    out = [('f_alpha', dict(n=20000))]
    d = 3 if THOROUGH else 2
    # all step-size sequences (no other deviation: the first outcomes elsewhere)
    for variant in ('SAEM', 'PSAEM', 'PSAEM2'):
        cond = variant != 'SAEM'
        base = dict(variant=variant, T=2, nump=2, fo=[0, 1] if cond else None)
        fs = [('pf', 'full', None)] if not cond else [('cpfas', 'ancestor', None), ('cpf', 'full', None), ('csiras', 'ancestor', None)]
        for (f, s, o) in fs:
            for mf in (True, False):
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=mf, numt=1, max_iter=3, alphas=A3, dev=d)))
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=mf, numt=1, max_iter=3, alphas=A4, dev=d, cb=0 if variant != 'PSAEM' or mf else 2)))
                if variant != 'PSAEM2':
                    out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=mf, numt=2, max_iter=3, alphas=A3, dev=d)))
                    out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=mf, numt=3, max_iter=2, alphas=A4, dev=d, nump=3)))
        f, s, o = fs[0]
        # long histories of fixed step sizes
        for fixed in ((1.0, 0.5, 0.5, 0.25), (1.0, 1.0, 0.5, 0.25), (0.5, 0.75, 0.125), (1.0, 0.125, 0.0, 0.5, 1.0, 0.5)):
            out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=6, alphas=A3, fixed=fixed, dev=1)))
            if variant != 'PSAEM2':
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=2, max_iter=5, alphas=A3, fixed=fixed, dev=1)))
        for k, fixed in enumerate(((1.0, 0.5, 0.75, 0.25, 0.5, 0.125, 0.25, 0.5), (1.0, 1.0, 0.3, 0.2, 0.1, 0.25, 0.4, 0.2, 0.6, 0.1))):
            out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=not k, numt=1, max_iter=11 + 4 * k, alphas=A3, fixed=fixed, dev=[k, k + 2])))
            if variant != 'PSAEM2':
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=bool(k), numt=3, max_iter=9, alphas=A3, fixed=fixed, dev=[k], nump=5)))
            if cond:
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=12, alphas=A3, fixed=fixed, dev=[k], eps=(0.05, 0.3)[k], perc=(30, 20)[k])))
            if variant == 'PSAEM':
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=12, alphas=A3, fixed=fixed, dev=[k], max_traj=5 + 2 * k)))
        out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=4, alphas=(0.5,), fixed=(1.0, 0.5), dev=1, reuse=True)))
        if cond:
            for eps in (0.1, 0.3, 1.0):
                for perc in (0, 25, 50, 80, 100):
                    for fixed in ((1.0, 0.5, 0.5, 0.25), (1.0, 0.25, 0.25), (1.0, 0.125, 0.5, 0.0625)):
                        out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=5, alphas=A3, fixed=fixed,
                                                   dev=1, eps=eps, perc=perc, alphabet=(0,) if perc in (0, 100) else (0, 1))))
                        if variant == 'PSAEM' and perc in (25, 50):
                            out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=2, max_iter=4, alphas=A3, fixed=fixed,
                                                       dev=1, eps=eps, perc=perc)))
            out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=3, alphas=A3, dev=d, eps=0.3, perc=60)))
        if variant == 'PSAEM':
            for (f, s, o) in fs:
                for N in (2, 3):
                    out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=3, alphas=A3, dev=d if N == 2 else 1, rb=True, nump=N)))
                    out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=False, numt=1, max_iter=3, alphas=A4, dev=1, rb=True, nump=N, T=3, fo=[0, 1, 1])))
            f, s, o = fs[0]
            for mt in (1, 2, 3, 4):
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=5, alphas=A3, fixed=(1.0, 0.5, 0.25), dev=1, max_traj=mt)))
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=2, max_iter=4, alphas=A3, fixed=(1.0, 0.5, 0.25), dev=1, max_traj=mt)))
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=4, alphas=A3, fixed=(1.0, 0.5, 0.25), dev=1, max_traj=mt, rb=True)))
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=4, alphas=A3, fixed=(1.0, 0.125, 0.5), dev=1, max_traj=mt, eps=0.2, perc=50)))
            for stop in (1, 2, 4):
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=6, alphas=A3, fixed=(1.0, 0.5), dev=1, stop=stop)))
            for mi in (1, 2, 4):
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=mi, alphas=A3, fixed=(1.0, 0.5), dev=1, cb=1)))
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=mi, alphas=A3, fixed=(1.0, 0.5), dev=1, cb=0)))
        if variant == 'SAEM':
            for (n, m) in ((2, [1, 2]), ([3, 2], 1), ([2, 3], [2, 1, 3])):
                out.append(('f_saem', dict(base, filt='pf', sm='full', opts=None, mf=True, nump=n, numt=m, max_iter=4, alphas=A3, dev=1)))
            for (f, s, o) in (('apf', 'mcmc', {'R': 1}), ('pf', 'mhips', {'R': 1}), ('sir', 'ancestor', None), ('pf', 'rs', {'R': 2}), ('cpfas', 'full', None)):
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=2, max_iter=3, alphas=A3, dev=1, T=3, fo=[0, 1, 0] if f == 'cpfas' else None)))
        if variant == 'PSAEM2':
            for (f, s, o) in (('cpfas', 'full', None), ('cpfas', 'mcmc', {'R': 1}), ('csiras', 'full', None), ('cpfas', 'rs', {'R': 2})):
                out.append(('f_saem', dict(base, filt=f, sm=s, opts=o, mf=True, numt=1, max_iter=3, alphas=A3, dev=1, T=3, fo=[0, 1, 0])))
    return out
