"""C20: bounds for rejection sampling."""
import itertools
import numpy as np
from lib import seam, gauss, mix, hier
from lib.env import THOROUGH
from checks import c14, c18, c19

CONFS = ('pure', 'ext')
TOL = 1e-9


def judge(r, bound, lps, attained, ctx):
    """lps: transition log-densities; attained: their exact supremum is among them."""
    b = np.asarray(bound, dtype=float)
    if b.size != 1 or not np.isfinite(b).all():
        return r.fail('scalar', 'bound %r' % (bound,), **ctx)
    b = float(b.ravel()[0])
    top = float(np.max(lps))
    r.states += len(lps)
    if top > b + TOL * max(1.0, abs(b)):
        return r.fail('bound', 'transition log-density %r exceeds the bound %r' % (top, b), **ctx)
    if attained and top < b - 1e-7 * max(1.0, abs(b)):
        return r.fail('slack', 'bound %r but the largest transition log-density is %r' % (b, top), **ctx)
    return True


def full_bound(m, P, ut, yt, tt, t):
    from pyparticleest.filter import ParticleApproximation, TrajectoryStep
    past = np.empty((t,), dtype=object)
    for k in range(t):
        past[k] = TrajectoryStep(ParticleApproximation(P + 3.0), np.arange(len(P)))
    return m.logp_xnext_max_full(part=P, past_trajs=past, pind=np.arange(len(P)), uvec=ut, yvec=yt, tvec=tt, cur_ind=t)


def f_nlg(r, d, Qk, setter=False):
    m = c14.make(d, 1, 'fun', 'fun', Qk, 'const', lxi=d, setter=setter)
    pts = gauss.grid(d, (-1.0, 0.5, 2.0))
    ut, tt, yt = [1.0, -2.0, 0.0, 3.0], [0.0, 1.0, 2.0, 3.0], [None] * 4
    for N in (1, 2, 3):
        for idx in itertools.combinations(range(len(pts)), N) if d < 3 else [[(k + 7 * i) % len(pts) for i in range(N)] for k in range(len(pts))]:
            x = np.asarray([pts[i] for i in idx])
            for t in (0, 1, 3):
                mu = c14.ff(x, ut[t], float(t))
                b = full_bound(m, x.copy(), ut, yt, tt, t)
                b2 = m.logp_xnext_max(x.copy(), ut[t], tt[t])
                lps = []
                for nxt in [row for row in mu] + [mu[0] + g for g in pts] + [g * 3.0 for g in pts[::2]]:
                    lps.extend(np.ravel(m.logp_xnext(x.copy(), np.repeat(nxt[None], N, 0), ut[t], tt[t])))
                r.executions += 2
                ctx = dict(particles=x.tolist(), t=t)
                for bb in (b, b2):
                    if judge(r, bb, lps, Qk != 'part', ctx) is not True:
                        return
    r.outcome('nlg %d %s' % (d, Qk))
    r.sample(d=d, Q=Qk, states=r.states)


def f_mix(r, lxi, lz, kinds):
    S = mix.Mix(lxi, lz, 1, kinds)
    m = S.make()
    al = c18.stats_alphabet(S)
    run_rb(r, S, m, al, 'mix', kinds, False)


def f_hier(r, lxi, lz, kinds):
    S = hier.Hier(lxi, lz, 1, kinds)
    m = S.make(rs=True)
    al = c19.stats_alphabet(S)
    run_rb(r, S, m, al, 'hier', kinds, True)


def run_rb(r, S, m, al, what, kinds, own):
    ut, tt, yt = [0.0, 2.0, 1.0], [0.0, 1.0, 2.0], [None] * 3
    shared = not own and all(v in 'cds' for v in kinds.values())
    for n in (1, 2, 3, 4):
        for sel in itertools.permutations(range(len(al)), n):
            parts = [al[i] for i in sel]
            P = c18.pack(parts)
            for t in (0, 1, 2):
                lps = []
                modes = []
                for p in parts:
                    if what == 'mix':
                        xn, zn = c18.ref_of(S, p, t).step_vars(ut[t])
                        modes.append(np.concatenate([xn.mean, zn.mean]))
                    else:
                        _, zn = c19.zstep(S, p, ut[t], t)
                        modes.append(np.concatenate([S.xif(p[0], ut[t], t), zn.mean]))
                others = [modes[0] + k * gauss.vec(len(modes[0]), 3 * k) for k in (1, -1, 2)]
                for nx in modes + others:
                    lps.extend(np.ravel(m.logp_xnext(P.copy(), np.repeat(nx[None], n, 0), ut[t], tt[t])))
                ctx = dict(kinds=kinds, sel=sel, t=t)
                keep = P.copy()
                for b in (full_bound(m, P, ut, yt, tt, t), m.logp_xnext_max(P, ut[t], tt[t])):
                    if judge(r, b, lps, shared, ctx) is not True:
                        return
                r.executions += 2
                if not np.array_equal(keep, P):
                    return r.fail('mutate', 'computing the bound changes the particles', **ctx)
    r.outcome('%s %d %d' % (what, S.lxi, S.lz))
    r.sample(kinds=kinds)


def f_run(r, what, smoother, T, N, M, dev, kinds=None, Qk='part', prealloc=False, missing=()):
    """Whole runs of the rejection smoothers: the bound of each step covers every transition
    evaluated at that step, and is computed from that step's particles, input and time."""
    from pyparticleest.simulator import Simulator
    st = seam.Stats()
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    if what == 'nlg':
        ys = [gauss.yvec(1, t) for t in range(T)]
    else:
        S = (mix.Mix(1, 1, 1, kinds) if what == 'mix' else hier.Hier(1, 1, 1, kinds))
        ys = [gauss.yvec(1 if what == 'mix' else 2, t).reshape(-1, 1) for t in range(T)]
    ys = [None if t in missing else y for t, y in enumerate(ys)]

    def body(c):
        if what == 'nlg':
            m = c14.make(1, 1, 'fun', 'fun', Qk, 'const', x0=np.zeros(1), Px0=np.eye(1), lxi=1)
        else:
            m = S.make()
        bounds, evals = [], []
        o_max, o_lp = m.logp_xnext_max, m.logp_xnext

        def lmax(particles, u, t):
            b = o_max(particles, u, t)
            bounds.append((float(t), u, np.array(particles, copy=True), float(np.max(b))))
            return b

        def lp(particles, next_part, u, t):
            v = o_lp(particles, next_part, u, t)
            evals.append((float(t), u, float(np.max(v))))
            return v
        m.logp_xnext_max, m.logp_xnext = lmax, lp
        sim = Simulator(m, us, list(ys))
        sim.simulate(N, M, filter='pf', smoother=smoother, res=0.67, meas_first=True)
        return sim, bounds, evals
    for p, ch, (sim, bounds, evals) in seam.explore(body, cells=seam.make_cells((), 3), normal='pm1', stats=st, dev=dev):
        traj = sim.pt.traj
        top = {}
        ctx = dict(choices=ch, smoother=smoother, model=what)
        for t, u, part, b in bounds:
            k = int(t)
            r.states += 1
            if k >= T - 1:
                continue
            if u != us[k]:
                return r.fail('align', 'bound for t=%r computed with input %r' % (t, u), **ctx)
            if not np.array_equal(part, traj[k].pa.part):
                return r.fail('particles', 'bound of t=%r is not computed from the particles of that time' % t, **ctx)
            top[k] = b
        if sorted(top) != list(range(T - 1)):
            return r.fail('missing', 'bounds computed for %r' % (sorted(top),), **ctx)
        for t, u, v in evals:
            if v > top[int(t)] + TOL * max(1.0, abs(v)):
                return r.fail('run-bound', 'transition log-density %r at t=%r exceeds the bound %r' % (v, t, top[int(t)]), **ctx)
    r.add(st)
    r.outcome('run %s %s' % (what, smoother))


def tasks():
    out = []
    for d in (1, 2, 3):
        for Qk in ('const', 'time', 'part'):
            out.append(('f_nlg', dict(d=d, Qk=Qk)))
        out.append(('f_nlg', dict(d=d, Qk='const', setter=True)))
    for k, kd in enumerate(mix.configs(THOROUGH)):
        for j, (lxi, lz) in enumerate(((1, 1), (2, 1), (1, 2), (2, 2))):
            if (k + j) % 2 == 0 or THOROUGH:
                out.append(('f_mix', dict(lxi=lxi, lz=lz, kinds=kd)))
    seen = []
    for k, kd in enumerate(hier.configs()):
        key = (kd['Az'], kd['fz'], kd['Qz'])
        if key in seen:
            continue
        seen.append(key)
        for lxi, lz in ((1, 1), (2, 1), (1, 2), (2, 2)):
            out.append(('f_hier', dict(lxi=lxi, lz=lz, kinds=kd)))
    for sm in ('rs', 'rsas'):
        for Qk in ('const', 'time', 'part'):
            out.append(('f_run', dict(what='nlg', smoother=sm, T=3, N=3, M=2, dev=1 if not THOROUGH else 2, Qk=Qk)))
        for miss in ((), (1,)):
            for kd in (mix.kinds('c'), mix.kinds('p')):
                out.append(('f_run', dict(what='mix', smoother=sm, T=3, N=2, M=2, dev=1 if not THOROUGH else 2, kinds=kd, missing=miss)))
        for kd in (hier.configs()[0], hier.configs()[-1]):
            out.append(('f_run', dict(what='hier', smoother=sm, T=3, N=2, M=2, dev=1 if not THOROUGH else 2, kinds=kd)))
    return out
