"""C09: particle Gibbs (conditional filter + drawing one trajectory) leaves the exact law invariant."""
import itertools
import numpy as np
from lib import seam, hmm, steps, smooth
from lib.env import THOROUGH
from checks.c08 import ref_traj

CONFS = ('pure',)
TOL = 1e-9


def target(spec, filt):
    """The law the filter targets: cpfyas starts from the measurement alone."""
    if filt == 'cpfyas' and spec.y[0] is not None:
        d = {}
        for p in itertools.product(range(spec.S), repeat=spec.T):
            w = spec.like(0)[p[0]]
            for t in range(1, spec.T):
                w *= spec.P(t - 1, spec.u[t - 1])[p[t - 1], p[t]] * spec.like(t)[p[t]]
            d[p] = w
        z = sum(d.values())
        return {k: v / z for k, v in d.items()}
    return spec.joint()


def key(pt):
    k = []
    for s in pt.traj:
        k.append((steps.states_of(s.pa), tuple(np.round(hmm.nw(s.pa.w), 10)), tuple(int(a) for a in s.ancestors)))
    return tuple(k)


def f_gibbs(r, filt, T, variant, y0, smoother, S=2, missing=(), free=None):
    """Breadth-first over the states of the conditional filter (merging equal histories).  With
    `free` only the states at those times are unknown (long histories)."""
    if free is None:
        spec = hmm.Spec(S=S, T=T, variant=variant, y0=y0, missing=missing)
    else:
        spec = hmm.Window(free=free, S=S, T=T, variant=variant, y0=y0, missing=missing)
    with np.errstate(divide='ignore'):
        return run_gibbs(r, spec, filt, T, y0, smoother, free)


def run_gibbs(r, spec, filt, T, y0, smoother, free):
    model = hmm.make_model(spec)
    st = seam.Stats()
    pi = target(spec, filt)
    new = {}
    for path, pr in pi.items():
        if pr <= 0:
            continue
        ref = ref_traj(path)
        # initial approximations
        front = {}

        def start(c):
            pt = steps.new_pt(model, 2, filt, 0.67, {'cond_traj': ref})
            if y0:
                pt.measure(spec.y[0])
            else:
                pt.forward(spec.u[0], spec.y[1])
            return pt
        for p, ch, pt in seam.explore(start, stats=st, lazy=True):
            k = key(pt)
            front[k] = (front.get(k, (0.0,))[0] + p, pt)
        t = 0 if y0 else 1
        while t + 1 < T:
            nxt = {}
            for k0, (m, pt0) in front.items():
                def body(c):
                    pt = steps.clone(pt0, model)
                    pt.forward(spec.u[t], spec.y[t + 1])
                    return pt
                for p, ch, pt in seam.explore(body, stats=st, lazy=True):
                    k = key(pt)
                    nxt[k] = (nxt.get(k, (0.0,))[0] + m * p, pt)
            front = nxt
            t += 1
        r.states += len(front)
        for k0, (m, pt) in front.items():
            for p, ch, s in seam.explore(lambda c: pt.perform_smoothing(1, smoother), stats=st, lazy=True):
                x = smooth_states(s)
                new[x] = new.get(x, 0.0) + pr * m * p
                r.outcome((path, x))
    r.add(st)
    d = smooth.dist(new, pi)
    if not d <= TOL:
        return r.fail('invariance:' + filt, '%s + %s: law after one sweep %r, before %r' % (filt, smoother, new, pi),
                      filter=filt, smoother=smoother, T=T, free=free)
    r.sample(filter=filt, smoother=smoother, T=T, law={repr(k): v for k, v in new.items()})


def smooth_states(s):
    return tuple(int(round(float(np.asarray(x.pa.part)[0, 0]))) for x in s.traj)


def f_sweep(r, filt, T, variant, smoother):
    """Two sweeps through the simulator, the second conditioned on the trajectory of the first."""
    from pyparticleest.simulator import Simulator
    spec = hmm.Spec(S=2, T=T, variant=variant, y0=True)
    model = hmm.make_model(spec)
    st = seam.Stats()
    pi = target(spec, filt)
    new = {}
    cur = {path: (pr, ref_traj(path)) for path, pr in pi.items() if pr > 0}
    for k in range(2):
        new = {}
        keep = {}
        for path, (pr, ref) in cur.items():
            def body(c):
                sim = Simulator(model, spec.u[:T - 1], spec.y)
                sim.simulate(2, 1, filter=filt, filter_options={'cond_traj': ref}, smoother=smoother, meas_first=True)
                return sim.straj.traj
            for p, ch, tr in seam.explore(body, stats=st, lazy=True):
                x = tuple(int(round(float(np.asarray(q.pa.part)[0, 0]))) for q in tr)
                new[x] = new.get(x, 0.0) + pr * p
                keep.setdefault(x, tr)       # the library's own trajectory becomes the next reference
                r.outcome((path, x))
        if not smooth.dist(new, pi) <= TOL:
            r.add(st)
            return r.fail('invariance:' + filt, '%s + %s, sweep %d: law %r, exact %r' % (filt, smoother, k + 1, new, pi), filter=filt, smoother=smoother, T=T)
        cur = {x: (new[x], keep[x]) for x in new}
    r.states += len(pi)
    r.add(st)
    r.sample(filter=filt, sweeps=2, law={repr(k): v for k, v in new.items()})


def tasks():
    out = []
    for filt in ('cpf', 'cpfas', 'csiras', 'cpfyas'):
        for v in ((0, 1, 2) if not THOROUGH else range(6)):
            for y0 in (True, False):
                for sm in ('ancestor', 'full'):
                    for T in (2, 3):
                        out.append(('f_gibbs', dict(filt=filt, T=T, variant=v, y0=y0, smoother=sm)))
                if THOROUGH or (v == 1 and (filt == 'cpf' or (y0 and filt == 'cpfyas'))):
                    out.append(('f_gibbs', dict(filt=filt, T=4, variant=v, y0=y0, smoother='ancestor')))
            out.append(('f_gibbs', dict(filt=filt, T=2, variant=v, y0=True, smoother='ancestor', S=3)))
            # long histories, one or two unknown states anywhere in them
            for t0 in range(0, 5):
                for k in (1, 2):
                    if THOROUGH or (t0 % 3 == v and (k == 1 or filt == 'cpf') and t0 + k <= 5 and (filt != 'cpfyas' or t0 < 4)):
                        out.append(('f_gibbs', dict(filt=filt, T=5, variant=v, y0=True, smoother='ancestor', free=list(range(t0, min(5, t0 + k))))))
            if filt in ('cpf', 'cpfas'):
                out.append(('f_gibbs', dict(filt=filt, T=3, variant=v, y0=True, smoother='ancestor', missing=(1,))))
                out.append(('f_gibbs', dict(filt=filt, T=3, variant=v, y0=True, smoother='full', missing=(2,))))
            out.append(('f_sweep', dict(filt=filt, T=2, variant=v, smoother='ancestor')))
            out.append(('f_sweep', dict(filt=filt, T=2, variant=v, smoother='full')))
    return sorted(out, key=lambda t: -t[1]['T'])
