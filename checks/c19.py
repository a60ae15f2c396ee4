"""C19: hierarchical conditionally linear models."""
import itertools
import numpy as np
from lib import seam, gauss, hier
from lib.env import THOROUGH
from checks.c18 import traj_array, pack

CONFS = ('pure', 'ext')


def particle(S, xi):
    z, P = S.init_z(np.asarray(xi).ravel())
    return np.concatenate([np.asarray(xi, dtype=float).ravel(), z.ravel(), P.ravel()])


def f_history(r, lxi, lz, ly, kinds, depth, initdep=False, rs=True):
    """Every sequence of update / measure calls on three particles."""
    S = hier.Hier(lxi, lz, ly, kinds, initdep=initdep)
    noises = [gauss.vec(lxi, 3), -1.5 * gauss.vec(lxi, 8)]
    ys = [gauss.vec(ly + 1, 6) * 2.0]
    ops = [('u', 0), ('u', 1), ('m', 0)]
    N = 3
    xi0 = [S.xi0 + (i - 1) * gauss.vec(lxi, i) for i in range(N)]
    for seq in itertools.product(ops, repeat=depth):
        m = S.make(rs=rs)
        part = np.asarray([particle(S, x) for x in xi0])
        refs = [S.start(x) for x in xi0]
        ctx = dict(seq=repr(seq), kinds=kinds)
        for k, (op, j) in enumerate(seq):
            t = float(refs[0].t)
            r.transitions += 1
            if op == 'u':
                u = float((2 * k + 1) % 3)
                nz = np.asarray([noises[j] * (1.0 + 0.2 * i) for i in range(N)])
                part = np.asarray(m.update(part, u, t, nz))
                for i in range(N):
                    refs[i].advance(S.xif(refs[i].xi[-1], u, t) + nz[i], u)
            else:
                y = ys[j] * (1.0 + 0.3 * k)
                lp = np.asarray(m.measure(part, y.reshape(-1, 1).copy(), t), dtype=float)
                want = [refs[i].measure(y) for i in range(N)]
                if lp.shape != (N,) or not gauss.close(lp, want, 1e-7):
                    return r.fail('likelihood', 'measurement log-weights %r instead of %r' % (lp, want), **ctx)
            r.states += 1
            xil, zl, Pl = m.get_states(part)
            for i in range(N):
                wz, wP = refs[i].state()
                if not gauss.close(xil[i], refs[i].xi[-1], 1e-8):
                    return r.fail('xi', 'nonlinear state %r instead of %r' % (xil[i], refs[i].xi[-1]), **ctx)
                if not gauss.close(zl[i], wz, 1e-7) or not gauss.close(Pl[i], wP, 1e-7):
                    return r.fail('state', 'linear state %r %r instead of %r %r' % (zl[i], Pl[i], wz, wP), **ctx)
        r.executions += 1
    r.outcome('history %d %d %d' % (lxi, lz, ly))
    r.sample(kinds=kinds, depth=depth)


def stats_alphabet(S):
    v = gauss.vec(S.lz, 2)
    Ps = [gauss.spd(S.lz, 0), gauss.spd(S.lz, 4) * 2.0, np.zeros((S.lz, S.lz)), np.outer(v, v)]
    return [(S.xi0 + gauss.vec(S.lxi, 3 * k), gauss.vec(S.lz, 5 * k + 1) * 1.5, P) for k, P in enumerate(Ps)]


def zstep(S, p, u, t):
    sp = gauss.Space()
    z = sp.new(p[1], p[2])
    zn = z.lin(S.val('Az', p[0], u, t)) + S.val('fz', p[0], u, t) + sp.new(np.zeros(S.lz), S.val('Qz', p[0], u, t))
    return z, zn


def f_backward(r, lxi, lz, ly, kinds, M, rs=True):
    """logp_xnext over all pairs, in both call arrangements; sample_smooth's law."""
    S = hier.Hier(lxi, lz, ly, kinds)
    al = stats_alphabet(S)
    N = len(al)
    P = pack(al)
    nexts = [(S.xi0 + 1.5 * gauss.vec(lxi, k), gauss.vec(lz, 7 * k) * (1 + k)) for k in range(4)]
    nx = np.asarray([np.concatenate([a, b]) for a, b in nexts])
    # what sample_smooth returns is longer than (xi, z)
    nxl = np.hstack([nx, np.zeros((4, 2 * lz * lz))])
    m = S.make(rs=rs)
    st = seam.Stats()
    ut, tt, yt = [0.0, 2.0, 1.0], [0.0, 1.0, 2.0], [None] * 3
    fut = traj_array([nxl, nxl[::-1].copy()])
    for t in (0, 1, 2):
        u = ut[t]
        ex = np.empty((N, 4))
        for i, p in enumerate(al):
            _, zn = zstep(S, p, u, t)
            for k, (a, b) in enumerate(nexts):
                ex[i, k] = S.logp_xi(p[0], a, u, t) + gauss.logcond(zn, b, [])
        const = {}
        for k in range(4):
            for got in (m.logp_xnext(P, nxl[k:k + 1], u, float(t)), m.logp_xnext_full(P, None, None, fut, np.full(N, k), ut, yt, tt, t)):
                d = np.asarray(got, dtype=float) - ex[:, k]
                r.states += N
                r.executions += 1
                if np.shape(got) != (N,) or not gauss.close(d, d[0] * np.ones(N), 1e-7):
                    return r.fail('xnext', 'transition log-densities %r instead of %r (up to a constant)' % (got, ex[:, k]), kinds=kinds, t=t)
                const[k] = d[0]
            for sub in range(1, min(N, 4)):
                got = np.asarray(m.logp_xnext(P[:sub], nxl[k:k + 1], u, float(t)), dtype=float)
                r.states += sub
                if got.shape != (sub,) or not gauss.close(got, ex[:sub, k] + const[k], 1e-7):
                    return r.fail('few', 'transition log-densities of %d particles %r instead of %r' % (sub, got, ex[:sub, k] + const[k]), kinds=kinds, t=t)
        for off in range(4):
            idx = np.asarray([(i + off) % 4 for i in range(N)])
            w = np.asarray([ex[i, idx[i]] + const[idx[i]] for i in range(N)])
            for got in (m.logp_xnext(P, nxl[idx], u, float(t)), m.logp_xnext_full(P, None, None, fut, idx, ut, yt, tt, t)):
                r.executions += 1
                if not gauss.close(got, w, 1e-7):
                    return r.fail('rows', 'transition log-densities %r instead of %r for one next state per particle' % (got, w), kinds=kinds, t=t)
    for t in (0, 1):
        for last in (False, True):
            for sel in itertools.permutations(range(N), M):
                for off in (0, 1, 3):
                    if last and off:
                        continue
                    find = np.asarray([(i + off) % 4 for i in range(M)])
                    parts = [al[i] for i in sel]
                    Q = pack(parts)
                    keep = Q.copy()
                    dist = []
                    for p, ch, out in seam.explore(lambda c: m.sample_smooth(Q, None, np.arange(M), None if last else fut, find, ut, yt, tt, t), normal='pm1', stats=st):
                        out = np.asarray(out)
                        if out.shape[0] != M or not gauss.close(out[:, :lxi], Q[:, :lxi]):
                            return r.fail('xi', 'nonlinear states %r' % (out,), kinds=kinds)
                        dist.append((p, out[:, lxi:lxi + lz].reshape(-1)))
                    if not np.array_equal(Q, keep):
                        return r.fail('mutate', 'sample_smooth changes its particles', kinds=kinds)
                    mean, C = gauss.moments(dist)
                    wm, W = [], np.zeros((M * lz, M * lz))
                    for i in range(M):
                        z, zn = zstep(S, parts[i], ut[t], t)
                        a, b = gauss.condition(z, [] if last else [(zn, nexts[find[i]][1])])
                        wm.extend(a)
                        W[i * lz:(i + 1) * lz, i * lz:(i + 1) * lz] = b
                    r.states += 1
                    if not gauss.close(mean, wm, 1e-7) or not gauss.close(C, W, 1e-7):
                        return r.fail('law', 'linear states have mean %r cov %r instead of %r %r' % (mean, C, wm, W), kinds=kinds, t=t, sel=sel, off=off)
    r.add(st)
    r.outcome('backward %d %d' % (lxi, lz))


def f_run(r, lxi, lz, ly, kinds, smoother, T, N, M, dev=1, rs=True):
    """Whole runs: weights of every step equal the exact predictive densities of the particles' own
    nonlinear histories, and every backward weight evaluation is exact."""
    from pyparticleest.simulator import Simulator
    S = hier.Hier(lxi, lz, ly, kinds)
    st = seam.Stats()
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    ys = [gauss.yvec(ly + 1, t).reshape(-1, 1) for t in range(T)]

    def body(c):
        log = []
        m = S.make(rs=rs, log=log)
        back = []
        orig = m.logp_xnext_full

        def full(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            out = orig(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind)
            back.append((np.array(part, copy=True), np.array(future_trajs[0].pa.part, copy=True), np.array(find, copy=True).ravel(), int(cur_ind), np.array(out, copy=True)))
            return out
        m.logp_xnext_full = full
        sim = Simulator(m, us, [y.copy() for y in ys])
        sim.simulate(N, M, filter='pf', smoother=smoother, smoother_options={'R': 2} if smoother == 'mcmc' else None, res=0.67, meas_first=True)
        return m, log, back, sim
    for p, ch, (m, log, back, sim) in seam.explore(body, cells=seam.make_cells((), 3), normal='pm1', stats=st, dev=dev):
        traj = sim.pt.traj
        for i in range(N):
            # the genealogy of particle i of the last step
            anc = [i]
            for t in range(T - 1, 0, -1):
                anc.insert(0, int(traj[t].ancestors[anc[0]]))
            rf = None
            for t in range(T):
                xi, zl, Pl = m.get_states(traj[t].pa.part)
                x = xi[anc[t]].ravel()
                if rf is None:
                    rf = S.start(x)
                else:
                    rf.advance(x, us[t - 1])
                lp = rf.measure(ys[t])
                got = [l for l in log if l[0] == float(t)]
                r.states += 1
                wz, wP = rf.state()
                if not got or not gauss.close(got[0][2][anc[t]], lp, 1e-7):
                    return r.fail('run-likelihood', 'log-weight at t=%d: %r instead of %r' % (t, [g[2] for g in got], lp), choices=ch, kinds=kinds)
                if not gauss.close(zl[anc[t]], wz, 1e-7) or not gauss.close(Pl[anc[t]], wP, 1e-7):
                    return r.fail('run-state', 'linear state at t=%d: %r instead of %r' % (t, zl[anc[t]], wz), choices=ch, kinds=kinds)
        const = {}
        for part, fut, find, t, out in back:
            find = np.broadcast_to(find, (len(part),)) if len(find) == 1 else find
            xi, zl, Pl = m.get_states(part)
            for i in range(len(part)):
                n = fut[find[i], :lxi + lz]
                p0 = (xi[i].ravel(), zl[i].ravel(), Pl[i])
                ex = S.logp_xi(p0[0], n[:lxi], us[t], t) + gauss.logcond(zstep(S, p0, us[t], t)[1], n[lxi:], [])
                d = out[i] - ex
                r.states += 1
                key = (t,) + tuple(n.tolist())
                if key in const and not gauss.close(d, const[key], 1e-6):
                    return r.fail('run-backward', 'backward weight %r, exact %r' % (out[i], ex), choices=ch, kinds=kinds, t=t)
                const.setdefault(key, d)
    r.add(st)
    r.outcome('run %s' % smoother)


def tasks():
    out = []
    cfg = hier.configs()
    cfg += [dict(c, h='d') for c in (cfg[0], cfg[-1], cfg[5])]
    dims = ((1, 1, 1), (2, 1, 2), (1, 2, 1), (2, 2, 2))
    for k, kd in enumerate(cfg):
        for j, (lxi, lz, ly) in enumerate(dims):
            if not THOROUGH and (k + j) % 4:
                out.append(('f_history', dict(lxi=lxi, lz=lz, ly=ly, kinds=kd, depth=2, initdep=bool(k % 2), rs=bool(k % 3))))
                continue
            out.append(('f_history', dict(lxi=lxi, lz=lz, ly=ly, kinds=kd, depth=3 if not THOROUGH else 5, initdep=bool(k % 2), rs=bool(k % 3))))
            if (k // 4) % 2 == 0 or THOROUGH:
                out.append(('f_backward', dict(lxi=lxi, lz=lz, ly=ly, kinds=kd, M=2 if lz == 2 else 3, rs=bool(k % 3))))
    for sm in ('full', 'rs', 'rsas', 'mcmc'):
        for kd in (cfg[0], cfg[-4]):
            for lz in (1, 2):
                out.append(('f_run', dict(lxi=1, lz=lz, ly=1, kinds=kd, smoother=sm, T=3, N=2, M=2, rs=sm.startswith('rs'))))
    return out
