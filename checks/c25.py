"""C25: Kalman building blocks against batch Gaussian conditioning."""
import itertools
import numpy as np
import scipy.linalg
from lib import gauss
from lib.env import THOROUGH

CONFS = ('pure', 'ext')
CONF = 'pure'

KQ = 3 if not THOROUGH else 6


def mod():
    if CONF == 'ext':
        import pyparticleest.utils.ckalman as k
    else:
        import pyparticleest.utils.kalman as k
    return k


def unchanged(r, name, before, after, **ctx):
    for k in before:
        if before[k] is None:
            continue
        if not np.array_equal(before[k], after[k]):
            return r.fail('mutate:' + name, '%s changes its argument %s' % (name, k), **ctx)
    return True


def cp(d):
    return {k: (None if v is None else np.array(v, copy=True)) for k, v in d.items()}


def val1(v):
    v = np.asarray(v, dtype=float)
    return float(v.reshape(-1)[0]) if v.size == 1 else None


def f_density(r, d):
    """All log density functions on a grid of residuals and covariances."""
    K = mod()
    errs = gauss.grid(d, (-2.0, -0.5, 0.0, 1.0, 3.0) if d < 3 else (-2.0, 0.0, 1.0))
    for k in range(2 * KQ):
        S = gauss.spd(d, k)
        want = [gauss.logpdf(e, S) for e in errs]
        for lower in (False, True):
            cho = scipy.linalg.cho_factor(S, lower=lower)
            for e, w in zip(errs, want):
                for shape in ((d, 1), (d,)):
                    a = cp({'err': e.reshape(shape), 'S': S})
                    b = cp(a)
                    g1 = val1(K.lognormpdf(b['err'], b['S']))
                    g2 = val1(K.lognormpdf_cho(b['err'], cho))
                    r.states += 2
                    if g1 is None or not gauss.close(g1, w):
                        return r.fail('lognormpdf', 'log density %r instead of %r' % (g1, w), err=e, S=S)
                    if g2 is None or not gauss.close(g2, w):
                        return r.fail('lognormpdf_cho', 'log density %r instead of %r' % (g2, w), err=e, S=S, lower=lower)
                    unchanged(r, 'lognormpdf', a, b)
            for N in (1, 2, len(errs)):
                for shape in ((N, d, 1), (N, d)):
                    E = np.asarray(errs[:N]).reshape(shape)
                    E0 = E.copy()
                    g = np.asarray(K.lognormpdf_cho_vec(E, cho), dtype=float)
                    r.states += N
                    if g.shape != (N,) or not gauss.close(g, want[:N]):
                        return r.fail('lognormpdf_cho_vec', 'log densities %r instead of %r' % (g, want[:N]), S=S)
                    if not np.array_equal(E, E0):
                        return r.fail('mutate', 'lognormpdf_cho_vec changes its argument')
        r.executions += 1
    # individual covariances
    for N in (1, 2, 3, len(errs)):
        Sl = np.asarray([gauss.spd(d, i + 1) for i in range(N)])
        w = [gauss.logpdf(errs[i], Sl[i]) for i in range(N)]
        for shape in ((N, d, 1), (N, d)):
            for pack in (lambda a: a, list):
                g = np.asarray(K.lognormpdf_vec(np.asarray(errs[:N]).reshape(shape), pack(Sl)), dtype=float)
                r.states += N
                if g.shape != (N,) or not gauss.close(g, w):
                    return r.fail('lognormpdf_vec', 'log densities %r instead of %r' % (g, w))
    if d == 1:
        for k in range(3):
            S = gauss.spd(1, k)
            for shape in ((-1,), (-1, 1), (-1, 1, 1)):
                E = np.asarray(errs).reshape(shape)
                g = np.asarray(K.lognormpdf_scalar(E, S), dtype=float)
                if g.size != len(errs) or not gauss.close(g, [gauss.logpdf(e, S) for e in errs]):
                    return r.fail('lognormpdf_scalar', 'log densities %r' % (g,))
                r.states += len(errs)
    r.outcome('density %d' % d)


def f_steps(r, lz, ly):
    """Time update, measurement and smoothing step on all matrix alphabet members."""
    K = mod()
    zs = gauss.grid(lz, (-1.0, 2.0))
    ys = gauss.grid(ly, (-1.5, 1.0))
    empty = K.KalmanSmoother(lz)
    # the *_full methods use the matrices passed, whatever the object's own are
    own = K.KalmanSmoother(lz, A=gauss.mat(lz, lz, 9), C=gauss.mat(ly, lz, 13), Q=gauss.spd(lz, 5) * 3.0, R=gauss.spd(ly, 5) * 2.0,
                           f_k=gauss.vec(lz, 11).reshape(-1, 1), h_k=gauss.vec(ly, 12).reshape(-1, 1))
    for kf, a, q, p in itertools.product((empty, own), range(3), range(3), range(KQ if max(lz, ly) < 3 else 2)):
        for z in zs:
            for singular in (0, 1, 2):
                P = gauss.spd(lz, p)
                if singular == 1:
                    P = np.zeros((lz, lz))
                if singular == 2:
                    v = gauss.vec(lz, p).reshape(-1, 1)
                    P = v.dot(v.T)
                A = gauss.mat(lz, lz, a) if a < 2 else np.eye(lz)
                f = gauss.vec(lz, a + 2 * q).reshape(-1, 1)
                Q = gauss.spd(lz, q) if not (q == 2 and singular == 0) else np.zeros((lz, lz))
                sp = gauss.Space()
                x = sp.new(z, P)
                xn = x.lin(A) + f + sp.new(np.zeros(lz), Q)
                wm, wP = xn.mean, gauss.cov(xn)
                args = dict(z=z.reshape(-1, 1).copy(), P=P.copy(), A=A.copy(), f_k=f.copy(), Q=Q.copy())
                keep = cp(args)
                zn, Pn = kf.predict_full(args['z'], args['P'], args['A'], args['f_k'], args['Q'])
                r.states += 1
                r.executions += 1
                if not gauss.close(zn, wm) or not gauss.close(Pn, wP):
                    return r.fail('predict_full', 'time update %r %r instead of %r %r' % (zn, Pn, wm, wP), **keep)
                if unchanged(r, 'predict_full', keep, args) is False:
                    return
                if np.shares_memory(zn, args['z']) or np.shares_memory(Pn, args['P']):
                    return r.fail('alias', 'predict_full returns views of its arguments')
                out = kf.predict_full_inplace(args['z'], args['P'], args['A'], args['f_k'], args['Q'])
                if not gauss.close(args['z'], wm) or not gauss.close(args['P'], wP) or not gauss.close(out[0], wm) or not gauss.close(out[1], wP):
                    return r.fail('predict_full_inplace', 'in-place time update %r %r instead of %r %r' % (args['z'], args['P'], wm, wP))
                for k in ('A', 'f_k', 'Q'):
                    if not np.array_equal(args[k], keep[k]):
                        return r.fail('mutate:inplace', 'predict_full_inplace changes %s' % k)
                # smoothing step: next state known to have mean zs, covariance Ps
                if singular == 0 and np.any(Q):
                    for s in range(2):
                        zf = gauss.vec(lz, s + 3).reshape(-1, 1)
                        Pf = gauss.spd(lz, s + 2) * 0.2 if s else np.zeros((lz, lz))
                        G = gauss.cov(x, xn).dot(np.linalg.inv(wP))
                        ms = z.reshape(-1, 1) + G.dot(zf - wm.reshape(-1, 1))
                        Pc = P - G.dot(wP).dot(G.T) + G.dot(Pf).dot(G.T)
                        Mc = G.dot(Pf)
                        args = dict(z=z.reshape(-1, 1).copy(), P=P.copy(), zf=zf.copy(), Pf=Pf.copy(), A=A.copy(), f=f.copy(), Q=Q.copy())
                        keep = cp(args)
                        o = kf.smooth(args['z'], args['P'], args['zf'], args['Pf'], args['A'], args['f'], args['Q'])
                        r.states += 1
                        if not (gauss.close(o[0], ms) and gauss.close(o[1], Pc) and gauss.close(o[2], Mc)):
                            return r.fail('smooth', 'smoothing step %r instead of %r' % (o, (ms, Pc, Mc)), **keep)
                        if unchanged(r, 'smooth', keep, args) is False:
                            return
                # measurement
                for c, hk in itertools.product((0, 1, None), (None, 1)):
                    C = None if c is None else gauss.mat(ly, lz, c + 4)
                    h = None if hk is None else gauss.vec(ly, 9).reshape(-1, 1)
                    R = gauss.spd(ly, q + 1)
                    for y in ys:
                        yv = x.lin(C) if C is not None else sp.const(np.zeros(ly))
                        yv = yv + (0 if h is None else h)
                        S = gauss.cov(yv) + R
                        wl = gauss.logpdf(y - yv.mean, S)
                        if C is not None:
                            G = gauss.cov(x, yv).dot(np.linalg.inv(S))
                            wz = z + G.dot(y - yv.mean)
                            wPp = P - G.dot(S).dot(G.T)
                        else:
                            wz, wPp = z, P
                        for name in ('measure_full', 'measure_full_scalar') if ly == 1 else ('measure_full',):
                            args = dict(y=y.reshape(-1, 1).copy(), z=z.reshape(-1, 1).copy(), P=P.copy(), C=C, h_k=h, R=R.copy())
                            keep = cp(args)
                            g = val1(getattr(kf, name)(**args))
                            r.states += 1
                            r.executions += 1
                            r.transitions += 1
                            if g is None or not gauss.close(g, wl):
                                return r.fail(name, 'log likelihood %r instead of %r' % (g, wl), **keep)
                            if not gauss.close(args['z'], wz) or not gauss.close(args['P'], wPp):
                                return r.fail(name, 'measurement update %r %r instead of %r %r' % (args['z'], args['P'], wz, wPp), **keep)
                            for k in ('y', 'C', 'h_k', 'R'):
                                if keep[k] is not None and not np.array_equal(args[k], keep[k]):
                                    return r.fail('mutate:' + name, '%s changes %s' % (name, k))
                        for yin in (y.reshape(-1, 1), np.asarray(np.round(y), dtype=int).reshape(-1, 1)):
                            args = dict(y=yin.copy(), z=z.reshape(-1, 1).copy(), C=C, h_k=h)
                            keep = cp(args)
                            g = kf.measurement_diff(**args)
                            want = yin.reshape(-1) - yv.mean
                            r.states += 1
                            if not gauss.close(g, want):
                                return r.fail('measurement_diff', 'innovation %r instead of %r' % (g, want), **keep)
                            if unchanged(r, 'measurement_diff', keep, args) is False:
                                return
    r.outcome('steps %d %d' % (lz, ly))
    r.sample(lz=lz, ly=ly, states=r.states)


def f_history(r, lz, ly, depth):
    """Every sequence of set_dynamics(subset) / predict / measure up to the depth: a matrix stays
    in force until it is replaced."""
    K = mod()
    names = ('A', 'C', 'Q', 'R', 'f_k', 'h_k')

    def value(n, k):
        return {'A': lambda: gauss.mat(lz, lz, k), 'C': lambda: gauss.mat(ly, lz, k), 'Q': lambda: gauss.spd(lz, k),
                'R': lambda: gauss.spd(ly, k), 'f_k': lambda: gauss.vec(lz, k).reshape(-1, 1), 'h_k': lambda: gauss.vec(ly, k).reshape(-1, 1)}[n]()
    subsets = [(), names] + [(n,) for n in names] + [('A', 'Q', 'f_k'), ('C', 'R', 'h_k'), ('A', 'C', 'Q', 'R')]
    ops = [('set', s) for s in subsets] + [('predict', None), ('measure', None)]
    # zero is a value like any other
    ops += [('zero', s) for s in (('f_k',), ('h_k',), ('Q',), ('A', 'f_k'))]
    for init in ((), names, ('A', 'Q'), ('C', 'R', 'h_k'), ('A', 'C', 'Q', 'R', 'f_k')):
        for cls in ('KalmanFilter', 'KalmanSmoother'):
            for seq in itertools.product(ops, repeat=depth):
                state = {n: None for n in names}
                state['f_k'] = np.zeros((lz, 1))
                kw = {}
                for n in init:
                    kw[n] = value(n, 0)
                    state[n] = value(n, 0)
                kf = getattr(K, cls)(lz, **kw)
                z = gauss.vec(lz, 8).reshape(-1, 1)
                P = gauss.spd(lz, 1).copy()
                for k, (op, s) in enumerate(seq):
                    r.transitions += 1
                    if op in ('set', 'zero'):
                        f = 1.0 if op == 'set' else 0.0
                        kf.set_dynamics(**{n: f * value(n, k + 1) for n in s})
                        state.update({n: f * value(n, k + 1) for n in s})
                    elif op == 'predict':
                        if state['A'] is None or state['Q'] is None:
                            break
                        wz = state['A'].dot(z) + state['f_k']
                        wP = state['A'].dot(P).dot(state['A'].T) + state['Q']
                        gz, gP = kf.predict(z, P)
                        if not gauss.close(gz, wz) or not gauss.close(gP, wP):
                            return r.fail('history:predict', 'predict uses the wrong dynamics', init=init, seq=seq)
                        z, P = wz, wP
                    else:
                        if state['R'] is None:
                            break
                        C = state['C']
                        h = np.zeros((ly, 1)) if state['h_k'] is None else state['h_k']
                        y = gauss.vec(ly, k).reshape(-1, 1)
                        e = y - h - (0 if C is None else C.dot(z))
                        S = state['R'] + (0 if C is None else C.dot(P).dot(C.T))
                        wl = gauss.logpdf(e, S)
                        gz, gP = z.copy(), P.copy()
                        gl = val1(kf.measure(y, gz, gP))
                        if C is not None:
                            G = P.dot(C.T).dot(np.linalg.inv(S))
                            z, P = z + G.dot(e), P - G.dot(S).dot(G.T)
                        if gl is None or not gauss.close(gl, wl) or not gauss.close(gz, z) or not gauss.close(gP, P):
                            return r.fail('history:measure', 'measure uses the wrong matrices', init=init, seq=seq)
                r.states += 1
                r.executions += 1
    r.outcome('history')


def tasks():
    out = [('f_density', dict(d=d)) for d in (1, 2, 3)]
    for lz in (1, 2, 3):
        for ly in (1, 2, 3):
            out.append(('f_steps', dict(lz=lz, ly=ly)))
    for lz, ly in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out.append(('f_history', dict(lz=lz, ly=ly, depth=2 if not THOROUGH else 3)))
    out.append(('f_history', dict(lz=1, ly=1, depth=3)))
    return out
