"""C26: compiled and pure-Python implementations agree (lockstep execution of both)."""
import contextlib
import importlib
import itertools
import sys
import numpy as np
import scipy.linalg
from lib import seam, gauss, mix, hier, pmix
from lib.env import THOROUGH

CONFS = ('ext',)
TOL = 1e-9
_sets = {}


def _grab():
    return {k: v for k, v in sys.modules.items() if k == 'pyparticleest' or k.startswith('pyparticleest.')}


def _purge():
    for k in list(_grab()):
        del sys.modules[k]


MODS = ('simulator', 'filter', 'smoother', 'models.mlnlg', 'models.ltv', 'models.nlg', 'models.hierarchial', 'models.rbpf',
        'paramest.paramest', 'paramest.interfaces')


def setup():
    """Two complete copies of the package: with the compiled modules and with the fallbacks."""
    if _sets:
        return
    for m in MODS:
        importlib.import_module('pyparticleest.' + m)
    _sets['ext'] = _grab()
    _purge()
    sys.modules['pyparticleest.utils.ckalman'] = None
    sys.modules['pyparticleest.utils.cmlnlg_compute'] = None
    for m in MODS:
        importlib.import_module('pyparticleest.' + m)
    import pyparticleest.utils.kalman
    import pyparticleest.utils.mlnlg_compute
    _sets['pure'] = _grab()
    _purge()
    sys.modules.update(_sets['ext'])
    for n in ('mlnlg', 'ltv', 'nlg', 'hierarchial', 'rbpf'):
        a = _sets['ext']['pyparticleest.models.' + n]
        b = _sets['pure']['pyparticleest.models.' + n]
        assert a is not b


@contextlib.contextmanager
def variant(which):
    _purge()
    sys.modules.update(_sets[which])
    try:
        yield
    finally:
        _purge()
        sys.modules.update(_sets['ext'])


def mods(name):
    return (_sets['ext']['pyparticleest.utils.' + {'kalman': 'ckalman', 'mlnlg_compute': 'cmlnlg_compute'}[name]],
            _sets['pure']['pyparticleest.utils.' + name])


def cp(a):
    if isinstance(a, np.ndarray):
        return a.copy(order='K')
    if isinstance(a, tuple):
        return tuple(cp(x) for x in a)
    if isinstance(a, list):
        return [cp(x) for x in a]
    return a


def differ(a, b, tol=TOL):
    """None or a description of the difference."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return 'lengths %d, %d' % (len(a), len(b))
        for x, y in zip(a, b):
            d = differ(x, y, tol)
            if d:
                return d
        return None
    if a is None or b is None:
        return None if a is b else '%r, %r' % (a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return 'shapes %r, %r' % (x.shape, y.shape)
    if x.dtype == object or y.dtype == object:
        return differ(list(x.ravel()), list(y.ravel()), tol)
    if x.dtype.kind in 'USb':
        return None if np.array_equal(x, y) else '%r, %r' % (a, b)
    with np.errstate(all='ignore'):
        sc = max(1.0, np.max(np.abs(y[np.isfinite(y)])) if np.any(np.isfinite(y)) else 1.0)
        ok = (np.abs(x - y) <= tol * sc) | (x == y) | (np.isnan(x) & np.isnan(y))
    return None if np.all(ok) else '%r, %r' % (a, b)


def both(fe, fp, args, kw=None):
    """Call both with equal copies; returns a difference or None, and the result."""
    kw = kw or {}
    out = []
    for f in (fe, fp):
        a = [cp(x) for x in args]
        k = {n: cp(v) for n, v in kw.items()}
        try:
            res = ('value', f(*a, **k))
        except (np.linalg.LinAlgError, ValueError, TypeError, IndexError) as e:
            res = ('error', 'linalg' if isinstance(e, np.linalg.LinAlgError) else 'args')
        out.append((res, a, k))
    (re, ae, ke), (rp, ap, kp) = out
    if re[0] != rp[0]:
        return 'compiled: %r, pure: %r' % (re, rp), None
    d = differ(re[1], rp[1])
    if d:
        return 'results differ: %s' % d, None
    d = differ(ae, ap) or differ([ke[n] for n in sorted(ke)], [kp[n] for n in sorted(kp)])
    if d:
        return 'arguments left differently modified: %s' % d, None
    return None, re


API = {'kalman': ('lognormpdf', 'lognormpdf_cho', 'lognormpdf_cho_vec', 'lognormpdf_vec', 'lognormpdf_scalar', 'KalmanFilter', 'KalmanSmoother', 'l2pi'),
       'mlnlg_compute': ('compute_logprod_derivative', 'compute_l2_grad_f', 'compute_l2_grad_A', 'compute_pred_err', 'compute_l2')}
METHODS = ('set_dynamics', 'predict', 'predict_full', 'predict_full_inplace', 'measurement_diff', 'measure', 'measure_full', 'measure_full_scalar', 'smooth')


def f_names(r):
    setup()
    for name, need in API.items():
        e, p = mods(name)
        for n in need:
            r.states += 1
            r.executions += 1
            r.transitions += 1
            if not hasattr(e, n) or not hasattr(p, n):
                return r.fail('api', '%s.%s: compiled %r, pure %r' % (name, n, hasattr(e, n), hasattr(p, n)))
    e, p = mods('kalman')
    for n in METHODS:
        if not hasattr(e.KalmanSmoother, n) or not hasattr(p.KalmanSmoother, n):
            return r.fail('api', 'method %s missing' % n)
    if e.l2pi != p.l2pi:
        return r.fail('api', 'l2pi %r, %r' % (e.l2pi, p.l2pi))
    r.outcome('names')


def f_pdf(r, d):
    setup()
    e, p = mods('kalman')
    errs = [gauss.vec(d, k) * s for k in range(5) for s in (1.0, -3.0)] + [np.zeros(d), np.full(d, 1e3)]
    mats = [gauss.spd(d, k) for k in range(7)] + [1e-8 * np.eye(d), np.diag(10.0 ** np.arange(d)), np.zeros((d, d)), -np.eye(d)]
    for S in mats:
        for Sv in (S, np.asfortranarray(S)):
            try:
                chs = [scipy.linalg.cho_factor(Sv), scipy.linalg.cho_factor(Sv, lower=True)]
            except np.linalg.LinAlgError:
                chs = []
            for k, x in enumerate(errs):
                calls = [('lognormpdf', (v, Sv)) for v in (x, x.reshape(-1, 1), x.reshape(1, -1))]
                for c in chs:
                    calls += [('lognormpdf_cho', (v, c)) for v in (x, x.reshape(-1, 1))]
                    for N in (1, 2, 3):
                        E = np.asarray([errs[(k + 2 * i) % len(errs)] for i in range(N)])
                        calls += [('lognormpdf_cho_vec', (v, c)) for v in (E, E.reshape(N, d, 1), np.asfortranarray(E))]
                for N in (0, 1, 2, 3):
                    E = np.asarray([errs[(k + 2 * i) % len(errs)] for i in range(N)]).reshape(N, d)
                    M = np.asarray([mats[(k + 3 * i) % 7] for i in range(N - 1)] + [Sv] * (N > 0)).reshape(N, d, d)
                    calls += [('lognormpdf_vec', (v, m)) for v in (E, E.reshape(N, d, 1)) for m in (M, list(M))]
                if d == 1:
                    for N in (1, 2, 3):
                        E = np.asarray([errs[(k + 2 * i) % len(errs)] for i in range(N)])
                        calls += [('lognormpdf_scalar', (v, Sv)) for v in (E, E.ravel(), E.reshape(N, 1, 1))]
                for fn, args in calls:
                    bad, res = both(getattr(e, fn), getattr(p, fn), args)
                    r.states += 1
                    r.executions += 2
                    r.transitions += 1
                    if bad:
                        return r.fail(fn, '%s: %s' % (fn, bad), args=[str(a) for a in args])
                    r.outcome(fn + repr(res[0]))
    r.sample(function='densities', dimension=d)


def kf_ops(lz, ly):
    """Operations of the lockstep machine: each takes (kf, state) and returns a value."""
    A = [gauss.mat(lz, lz, 1), 0.5 * np.eye(lz)]
    Q = [gauss.spd(lz, 1), np.zeros((lz, lz))]
    f = [gauss.vec(lz, 2).reshape(-1, 1), np.zeros((lz, 1))]
    C = [gauss.mat(ly, lz, 3), np.ones((ly, lz))]
    R = [gauss.spd(ly, 1), 3.0 * np.eye(ly)]
    h = [gauss.vec(ly, 5).reshape(-1, 1), None]
    y = [gauss.vec(ly, 6).reshape(-1, 1), np.zeros((ly, 1))]
    ops = []
    for k in (0, 1):
        ops.append(('set', lambda kf, s, k=k: kf.set_dynamics(A=A[k], C=C[k], Q=Q[0], R=R[k], f_k=f[k], h_k=h[k])))
        ops.append(('predict', lambda kf, s, k=k: kf.predict_full_inplace(s['z'], s['P'], A[k].copy(), f[k].copy(), Q[k].copy())))
        ops.append(('measure_full', lambda kf, s, k=k: kf.measure_full(y[k].copy(), s['z'], s['P'], C[k].copy(), None if h[k] is None else h[k].copy(), R[k].copy())))
    ops.append(('measureC0', lambda kf, s: kf.measure_full(y[0].copy(), s['z'], s['P'], None, h[0].copy(), R[0].copy())))
    ops.append(('measureC0h0', lambda kf, s: kf.measure_full(y[0].copy(), s['z'], s['P'], None, None, R[0].copy())))
    ops.append(('setA', lambda kf, s: kf.set_dynamics(A=A[1])))
    ops.append(('setR', lambda kf, s: kf.set_dynamics(R=R[1], h_k=h[0])))

    def move(kf, s):
        (s['z'], s['P']) = [x.copy() for x in kf.predict(s['z'], s['P'])]
    ops.append(('move', move))
    ops.append(('measure', lambda kf, s: kf.measure(y[0].copy(), s['z'], s['P'])))
    ops.append(('diff', lambda kf, s: kf.measurement_diff(y[0].copy(), s['z'], C[0].copy(), h[0].copy())))
    ops.append(('diff0', lambda kf, s: (kf.measurement_diff(y[0].copy(), s['z'], None), kf.measurement_diff(y[0].copy(), s['z'], C[1].copy()))))

    def smooth(kf, s):
        out = kf.smooth(s['z'], s['P'], s['z'] + 1.0, 0.5 * s['P'], A[0].copy(), f[0].copy(), Q[0].copy())
        (s['z'], s['P']) = out[0].copy(), out[1].copy()
        return out
    ops.append(('smooth', smooth))
    if ly == 1:
        for k in (0, 1):
            ops.append(('scalar', lambda kf, s, k=k: kf.measure_full_scalar(y[k].copy(), s['z'], s['P'], C[k].copy() if k == 0 else None, None if h[k] is None else h[k].copy(), R[k].copy())))
        ops.append(('scalar2', lambda kf, s: kf.measure_full_scalar(y[0].copy(), s['z'], s['P'], C[1].copy(), None, R[1].copy())))
    return ops


def f_kf(r, lz, ly, depth, init):
    """All operation sequences up to the depth on a filter of each implementation in lockstep."""
    setup()
    e, p = mods('kalman')
    ops = kf_ops(lz, ly)

    def fresh(m):
        kw = {}
        if init:
            kw = dict(A=gauss.mat(lz, lz, 4), C=gauss.mat(ly, lz, 2), Q=gauss.spd(lz, 2), R=gauss.spd(ly, 2))
            if init == 2:
                kw.update(f_k=gauss.vec(lz, 1).reshape(-1, 1), h_k=gauss.vec(ly, 1).reshape(-1, 1))
        kf = m.KalmanSmoother(lz, **kw)
        return kf, {'z': gauss.vec(lz, 9).reshape(-1, 1).copy(), 'P': gauss.spd(lz, 3).copy()}

    def call(f, kf, s):
        try:
            return ('value', f(kf, s))
        except np.linalg.LinAlgError:
            return ('error', 'linalg')
        except (AttributeError, ValueError, TypeError) as ex:
            return ('error', 'args')
    for seq in itertools.product(range(len(ops)), repeat=depth):
        ke, se = fresh(e)
        kp, sp = fresh(p)
        r.executions += 2
        for k in seq:
            a, b = call(ops[k][1], ke, se), call(ops[k][1], kp, sp)
            r.transitions += 1
            bad = differ(list(a), list(b), 1e-7) or differ([se['z'], se['P']], [sp['z'], sp['P']], 1e-7)
            if bad:
                return r.fail('kf', 'after %r the implementations differ: %s' % ([ops[j][0] for j in seq], bad))
        r.states += 1
    r.outcome('kf %d %d %d' % (lz, ly, init))
    r.sample(lz=lz, ly=ly, operations=[o[0] for o in ops], depth=depth)


def f_mlnlg(r, lxi, lz, N, lenp):
    """The helper functions on every argument pattern (including memory order and dirty buffers)."""
    setup()
    e, p = mods('mlnlg_compute')
    dim = lxi + lz

    def gen(shape, k):
        n = int(np.prod(shape))
        return np.asarray([gauss.mat(1, 1, k + 3 * i)[0, 0] for i in range(n)], dtype=float).reshape(shape) if n else np.zeros(shape)
    for k in range(4):
        for order in 'CF':
            for dirty in (0.0, 7.5):
                g = lambda *shape: np.array(gen(shape, k * 50 + len(shape)), order=order)
                perr, fg = g(N, dim, 1), g(N, lenp, dim, 1)
                Ag, zl, Pl, M, A = g(N, lenp, dim, lz), g(N, lz, 1), g(N, lz, lz), g(N, lz, lz), g(N, dim, lz)
                Pn = g(N, lz, lz)
                out = np.full((N, lenp, dim, dim), dirty) + (gen((N, lenp, dim, dim), 3) if dirty else 0.0)
                out3 = np.full((N, dim, dim), dirty)
                t1, t2 = np.full((dim, dim), dirty), np.full((dim, lz), dirty)
                xn, f = g(N, dim, 1), g(N, dim, 1)
                calls = [('compute_l2_grad_f', (N, lenp, dim, out, perr, fg, t1)),
                         ('compute_l2_grad_A', (N, lenp, dim, out, perr, lxi, Pn, zl, Pl, M, A, Ag, t1, t2)),
                         ('compute_pred_err', (N, dim, xn, f, A, zl, np.full((N, dim, 1), dirty))),
                         ('compute_l2', (N, lxi, dim, perr, Pn, A, Pl, M, out3))]
                if k < 3 and dim <= 3:
                    for S in (gauss.spd(dim, k), gauss.spd(dim, k + 2)):
                        ch = scipy.linalg.cho_factor(S)
                        calls.append(('compute_logprod_derivative', (ch, g(dim, dim), g(dim, dim) + 1.0, g(dim, dim) - 0.5)))
                for fn, args in calls:
                    # scratch buffers are not results: compare everything but tmp arguments
                    fe, fp = getattr(e, fn), getattr(p, fn)
                    keep = {'compute_l2_grad_f': (3, 4, 5), 'compute_l2_grad_A': (3, 4, 6, 7, 8, 9, 10, 11)}.get(fn)
                    res = []
                    for fu in (fe, fp):
                        a = [cp(x) for x in args]
                        v = fu(*a)
                        res.append((v, a if keep is None else [a[i] for i in keep]))
                    bad = differ(res[0][0], res[1][0]) or differ(res[0][1], res[1][1])
                    r.states += 1
                    r.executions += 2
                    r.transitions += 1
                    if bad:
                        return r.fail(fn, '%s(N=%d, lenp=%d, lxi=%d, lz=%d): %s' % (fn, N, lenp, lxi, lz, bad))
    r.outcome('mlnlg %d %d' % (lxi, lz))


# ---- whole runs under the same random choices

def build(kind, lxi, lz, ly, ki, cls='sampled'):
    if kind == 'hier':
        S = hier.Hier(lxi, lz, ly, hier.configs()[ki])
        return S.make(), ly + 1
    if kind == 'nlg':
        from checks import c14
        a = [('const', 'const', 'const', 'const'), ('fun', 'fun', 'const', 'const'), ('fun', 'fun', 'part', 'part'), ('fun', 'fun', 'time', 'time')][ki]
        return c14.make(lz, ly, *a, x0=gauss.vec(lz, 1).reshape(-1, 1), Px0=gauss.spd(lz, 1), lxi=lz), ly
    if kind == 'ltv':
        from checks import c21
        S = c21.PSys(lz, ly, LTVK[ki], ('A', 'Q', 'R', 'C'), (0.2, 0.1))
        return S.model(bounds=[(-0.5, 0.5)] * 2), ly
    S = pmix.PMix(lxi, lz, ly, mix.configs()[ki], ('Axi', 'Az', 'fxi', 'Qz', 'Qxi', 'R', 'z0'), (0.2, 0.1))
    return pmix.model(S, cls, bounds=[(-0.5, 0.5)] * 2), ly


LTVK = [dict(zip('AfQChR', 'cccccc')), dict(zip('AfQChR', 'tttttt')), dict(zip('AfQChR', 'cdcccc')), dict(zip('AfQChR', 'tctccd'.replace('d', 't')))]


def run(c, kind, lxi, lz, ly, ki, cls, filt, sm, T, N, M, missing, em):
    from pyparticleest.simulator import Simulator
    m, yd = build(kind, lxi, lz, ly, ki, cls)
    us = [float((2 * t + 1) % 3) for t in range(T - 1)]
    ys = [None if t in missing else gauss.yvec(yd, t).reshape(-1, 1) for t in range(T)]
    if kind in ('mix', 'ltv'):
        m.set_params(np.asarray((0.2, 0.1)))
    sim = Simulator(m, us, ys)
    sim.simulate(N, M, filter=filt, smoother=sm, smoother_options={'R': 1} if sm not in ('full', 'ancestor', 'rsas') else None, meas_first=True)
    out = []
    for s in sim.pt.traj:
        out += [np.array(s.pa.part, dtype=float), np.array(s.pa.w, dtype=float), np.array(s.ancestors)]
    for s in sim.straj.traj:
        out.append(np.array(s.pa.part, dtype=float))
    st = sim.straj
    if kind in ('mix', 'ltv') and em:
        out.append(np.array(m.eval_logp_x0(st.traj[0].pa.part, st.t[0])))
        out.append(m.eval_logp_xnext_fulltraj(st, st.u, st.t))
        out.append(m.eval_logp_y_fulltraj(st, st.y, st.t))
        for v in (m.eval_logp_x0_val_grad(st.traj[0].pa.part, st.t[0]), m.eval_logp_xnext_val_grad_fulltraj(st, st.u, st.t), m.eval_logp_y_val_grad_fulltraj(st, st.y, st.t)):
            out += [np.ravel(v[0]), np.ravel(v[1])]
    if kind == 'nlg':
        x = np.asarray(sim.pt.traj[0].pa.part)
        out += [np.asarray(m.logp_xnext(x, x[::-1].copy(), us[0], 0.0)), np.asarray(m.eval_logp_x0(x, 0.0))]
    return out


def f_run(r, kind, lxi, lz, ly, ki, filt, sm, T=3, N=2, M=2, missing=(), cls='sampled', em=True, dev=1):
    setup()
    cells = seam.make_cells((), 4)
    st = seam.Stats()
    a = (kind, lxi, lz, ly, ki, cls, filt, sm, T, N, M, missing, em)

    def body(c):
        with variant('ext'):
            return run(c, *a)

    def body2(c):
        with variant('pure'):
            return run(c, *a)
    for p, ch, x in seam.explore(body, cells=cells, normal='pm1', stats=st, dev=dev):
        try:
            _, ch2, y = seam.replay(body2, ch, cells=cells, normal='pm1')
        except seam.Divergence as ex:
            return r.fail('run', 'the two configurations make different random choices (%s)' % ex, choices=ch)
        bad = differ(x, y, 1e-7) if ch == ch2 else 'numbers of random choices %d, %d' % (len(ch), len(ch2))
        if bad:
            return r.fail('run', '%s with %s/%s differs between compiled and pure: %s' % (kind, filt, sm, bad), choices=ch)
        r.states += 1
        r.executions += 1
        r.outcome(repr([np.round(v, 6) for v in x[-3:]]))
    r.add(st)
    r.sample(kind=kind, filter=filt, smoother=sm, executions=r.states)


def tasks():
    out = [('f_names', {})]
    for d in (1, 2, 3):
        out.append(('f_pdf', dict(d=d)))
    for lz in (1, 2, 3):
        for ly in (1, 2):
            for init in (0, 1, 2):
                out.append(('f_kf', dict(lz=lz, ly=ly, depth=3 if THOROUGH or (lz < 3 and (lz, ly) != (1, 1)) else 2, init=init)))
    if THOROUGH:
        out.append(('f_kf', dict(lz=2, ly=1, depth=4, init=2)))
        out.append(('f_kf', dict(lz=2, ly=2, depth=4, init=2)))
    for lxi in (0, 1, 2):
        for lz in (1, 2, 3):
            for N in (0, 1, 2, 3):
                for lenp in (1, 2, 3):
                    out.append(('f_mlnlg', dict(lxi=lxi, lz=lz, N=N, lenp=lenp)))
    nmix = len(mix.configs())
    dims = ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1))
    d = 2 if THOROUGH else 1
    for k in range(nmix if THOROUGH else 12):
        lxi, lz, ly = dims[k % 4]
        out.append(('f_run', dict(kind='mix', lxi=lxi, lz=lz, ly=ly, ki=k, filt='pf', sm=('full', 'mcmc', 'ancestor', 'mhips')[k % 4], cls='sampled', missing=((), (1,), (0,))[k % 3], dev=d)))
        if k % 2 or THOROUGH:
            out.append(('f_run', dict(kind='mix', lxi=lxi, lz=lz, ly=ly, ki=k, filt='pf', sm=('full', 'mcmc', 'ancestor', 'full')[k % 4], cls='marg', missing=((), (1,), (0,))[k % 3], dev=d)))
    for k in range(len(hier.configs()) if THOROUGH else 12):
        kk = k if THOROUGH else 7 * k
        lxi, lz, ly = dims[k % 4]
        out.append(('f_run', dict(kind='hier', lxi=lxi, lz=lz, ly=ly, ki=kk, filt='pf', sm=('full', 'mcmc', 'ancestor', 'rsas')[k % 4], missing=((), (1,), (2,))[k % 3], dev=d)))
    for k in range(4):
        for (f, s) in (('pf', 'full'), ('apf', 'mcmc'), ('pf', 'rsas'), ('apf', 'full')):
            out.append(('f_run', dict(kind='nlg', lxi=0, lz=1 + k % 2, ly=1 + k // 2, ki=k, filt=f, sm=s, missing=(1,) if k == 2 else (), dev=d)))
        for s in ('full', 'mcmc'):
            for lz, ly in ((1, 1), (2, 1), (2, 2)):
                out.append(('f_run', dict(kind='ltv', lxi=0, lz=lz, ly=ly, ki=k, filt='pf', sm=s, missing=(1,) if k % 2 else (), dev=d)))
    return out
