"""C32: models whose particles carry statistics: each measurement and each time update enters exactly
once, every callback gets the representation it is documented to get, and the hooks run as documented."""
import itertools
import numpy as np
from lib import seam, hmm, steps
from lib.env import THOROUGH

CONFS = ('pure',)

# A filter particle is [state, number of representation, digits of the measurements taken in, digits
# of the time updates taken in]; smoothed particles have one more column, final ones two more.
FILT, SMOOTH, FINAL, REF = 0, 1, 2, 3
WIDTH = {FILT: 4, SMOOTH: 5, FINAL: 6}


def rep_of(p):
    p = np.asarray(p)
    r = set(int(x) for x in p[:, 1])
    if len(r) != 1:
        raise AssertionError('mixed representations %r' % sorted(r))
    r = r.pop()
    if p.shape[1] != WIDTH.get(r, p.shape[1]):
        raise AssertionError('particles of representation %d have %d columns' % (r, p.shape[1]))
    return r


def states(p):
    return [int(x) for x in np.asarray(p)[:, 0]]


def val(u):
    return float(np.asarray(u, dtype=float).reshape(-1)[0])


def make(spec, log):
    from pyparticleest import interfaces
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    S = spec.S

    def meas_digits(t, incl):
        """The measurements before t (and at t)."""
        return sum(10 ** k for k in range(t + (1 if incl else 0)) if spec.y[k] is not None)

    def upd_digits(t):
        return sum(10 ** k for k in range(t))

    def expect(p, t, measured, what, rep=FILT):
        if rep_of(p) != rep:
            raise AssertionError('%s: representation %d instead of %d' % (what, rep_of(p), rep))
        for row in np.asarray(p):
            if int(row[2]) != meas_digits(t, measured) or int(row[3]) != upd_digits(t):
                raise AssertionError('%s at t=%d: statistics contain measurements %d and updates %d, should be %d and %d'
                                     % (what, t, row[2], row[3], meas_digits(t, measured), upd_digits(t)))

    def expect_traj(traj, t0, what, rep=FILT):
        for k, s in enumerate(traj):
            expect(s.pa.part, t0 + k, True, what + ' (trajectory)', rep)

    def new(xs, rep=FILT, m=0, u=0):
        out = np.zeros((len(xs), WIDTH[rep]))
        out[:, 0] = xs
        out[:, 1] = rep
        out[:, 2] = m
        out[:, 3] = u
        return out

    class Model(interfaces.ParticleFiltering, interfaces.AuxiliaryParticleFiltering, interfaces.FFBSiRS, interfaces.SampleProposer):

        def create_initial_estimate(self, N):
            return new([seam.pick(list(spec.p0())) for _ in range(N)])

        def sample_process_noise(self, particles, u, t):
            expect(particles, int(t), True, 'sample_process_noise')
            n = spec._noise(t, val(u))
            return np.asarray([seam.pick(list(n[x])) for x in states(particles)], dtype=float)

        def update(self, particles, u, t, noise):
            expect(particles, int(t), True, 'update')
            s = spec.shift(t, val(u))
            particles[:, 0] = [(int(v) + s) % S for v in noise]
            particles[:, 3] += 10 ** int(t)
            return particles

        def measure(self, particles, y, t):
            expect(particles, int(t), False, 'measure')
            particles[:, 2] += 10 ** int(t)
            return spec.logg(t, val(y))[states(particles)]

        def eval_1st_stage_weights(self, particles, u, y, t):
            expect(particles, int(t), True, 'eval_1st_stage_weights')
            return np.log(spec.first_stage(t, val(u), val(y)))[states(particles)]

        def eval_logp_x0(self, particles, t):
            expect(particles, 0, False, 'eval_logp_x0')
            return np.log(spec.p0())[states(particles)]

        def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            expect(part, cur_ind, True, 'logp_xnext_full')
            if past_trajs is not None:
                expect_traj(past_trajs, 0, 'logp_xnext_full')
            for f in future_trajs:
                if rep_of(f.pa.part) != SMOOTH:
                    raise AssertionError('logp_xnext_full: future of representation %d' % rep_of(f.pa.part))
            nx = states(np.asarray(future_trajs[0].pa.part)[np.asarray(find, dtype=int)])
            return np.log(spec.P(tt[cur_ind], val(ut[cur_ind])))[states(part), nx]

        def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
            expect(part, cur_ind, True, 'logp_xnext_singlestep')
            expect(future_parts, cur_ind + 1, False, 'logp_xnext_singlestep (future)')
            nx = states(np.asarray(future_parts)[np.asarray(find, dtype=int)])
            return np.log(spec.P(tt[cur_ind], val(ut[cur_ind])))[states(part), nx]

        def logp_xnext(self, particles, next_part, u, t):
            raise AssertionError('logp_xnext called although the model has its own logp_xnext_full')

        def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
            expect(part, cur_ind, True, 'logp_xnext_max_full')
            return np.max(np.log(spec.P(cur_ind, val(uvec[cur_ind])))[states(part)])

        def logp_xnext_max(self, particles, u, t):
            raise AssertionError('logp_xnext_max called although the model has its own logp_xnext_max_full')

        # Metropolis-Hastings
        def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
            expect(part, cur_ind, True, 'cond_predict_single_step')
            if rep_of(future_parts) != FILT:
                raise AssertionError('cond_predict_single_step: future of representation %d' % rep_of(future_parts))
            f = np.asarray(future_parts)[np.asarray(find, dtype=int)]
            p = np.asarray(part)
            out = new(states(f))
            out[:, 2] = p[:, 2]
            out[:, 3] = p[:, 3] + 10 ** cur_ind
            return out

        def cond_sampled_initial(self, part, t):
            if rep_of(part) != FILT or int(t) != 0:
                raise AssertionError('cond_sampled_initial: representation %d, time %r' % (rep_of(part), t))
            return new(states(part))

        def qpar(self, n, ptraj, anc, future_trajs, find, yt, cur_ind):
            xp = [None] * n if ptraj is None else states(np.asarray(ptraj[-1].pa.part)[np.asarray(anc, dtype=int)])
            if ptraj is not None:
                expect_traj(ptraj, 0, 'proposal')
            if future_trajs is not None and rep_of(future_trajs[0].pa.part) != SMOOTH:
                raise AssertionError('proposal: future of representation %d' % rep_of(future_trajs[0].pa.part))
            xn = [None] * n if future_trajs is None else states(np.asarray(future_trajs[0].pa.part)[np.asarray(find, dtype=int)])
            y = None if yt[cur_ind] is None else val(yt[cur_ind])
            return [spec.qsmooth(cur_ind, a, b, y) for a, b in zip(xp, xn)]

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            n = len(anc) if ptraj is not None else len(find)
            xs = [seam.pick(list(q)) for q in self.qpar(n, ptraj, anc, future_trajs, find, yt, cur_ind)]
            return new(xs, FILT, meas_digits(cur_ind, False), upd_digits(cur_ind))

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            expect(prop_part, cur_ind, False, 'logp_proposal')
            q = self.qpar(len(prop_part), ptraj, anc, future_trajs, find, yt, cur_ind)
            return np.log([p[x] for p, x in zip(q, states(prop_part))])

        # representations and hooks
        def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
            expect(part, cur_ind, True, 'sample_smooth')
            if ptraj is not None:
                expect_traj(ptraj, 0, 'sample_smooth')
            if future_trajs is not None:
                for f in future_trajs:
                    if rep_of(f.pa.part) != SMOOTH:
                        raise AssertionError('sample_smooth: future of representation %d' % rep_of(f.pa.part))
            log.append(('sample', cur_ind))
            out = new(states(part), SMOOTH)
            out[:, 2:4] = np.asarray(part)[:, 2:4]
            out[:, 4] = 7.0
            return out

        def convert(self, st, rep):
            T = len(st.traj)
            if T != spec.T or any(s is None for s in st.traj):
                raise AssertionError('the hook got an incomplete trajectory')
            for t in range(T):
                if rep_of(st.traj[t].pa.part) != SMOOTH or len(st.traj[t].pa.part) != st.M:
                    raise AssertionError('the hook got %d particles of representation %d at t=%d'
                                         % (len(st.traj[t].pa.part), rep_of(st.traj[t].pa.part), t))
                if int(st.t[t]) != t or (t < T - 1 and val(st.u[t]) != spec.u[t]):
                    raise AssertionError('the hook got a wrong input or time at t=%d' % t)
                if (st.y[t] is None) != (spec.y[t] is None) or (st.y[t] is not None and val(st.y[t]) != spec.y[t]):
                    raise AssertionError('the hook got a wrong measurement at t=%d' % t)
            out = np.empty((T,), dtype=object)
            for t in range(T):
                p = new(states(st.traj[t].pa.part), rep, meas_digits(t, True), upd_digits(t))
                if rep == FINAL:
                    p[:, 4] = 9.0 + t
                    p[:, 5] = len(log)
                out[t] = TrajectoryStep(ParticleApproximation(p), np.arange(len(p)))
            return out

        def pre_mhips_pass(self, st):
            # the first pass starts from forward particles that went through sample_smooth
            log.append(('pre',))
            return self.convert(st, FILT)

        def post_smoothing(self, st):
            log.append(('post',))
            self.final = self.convert(st, FINAL)
            return self.final
    return Model()


def drive(model, spec, N, filt, late):
    pt = steps.new_pt(model, N, filt)
    if spec.y[0] is not None:
        pt.measure(spec.y[0])
    for t in range(spec.T - 1):
        if late:
            pt.forward(spec.u[t], None)
            if spec.y[t + 1] is not None:
                pt.measure(spec.y[t + 1])
        else:
            pt.forward(spec.u[t], spec.y[t + 1])
    return pt


def digits(spec, t):
    return (sum(10 ** k for k in range(t + 1) if spec.y[k] is not None), sum(10 ** k for k in range(t)))


def f_run(r, filt, sm, opts, N, M, T, variant, y0=True, missing=(), late=False, dev=None):
    spec = hmm.Spec(S=2, T=T, variant=variant, y0=y0, missing=missing)
    plain = hmm.make_model(spec)
    log = []
    model = make(spec, log)
    st = seam.Stats()
    cells = seam.make_cells((), 4)
    steady = {}

    def body(c):
        del log[:]
        pt = drive(model, spec, N, filt, late)
        a = [np.array(s.pa.part, copy=True) for s in pt.traj]
        s = None if sm is None else pt.perform_smoothing(M, sm, None if opts is None else dict(opts))
        return pt, a, s

    def ref(c):
        pt = drive(plain, spec, N, filt, late)
        return pt, None if sm is None else pt.perform_smoothing(M, sm, None if opts is None else dict(opts))

    def setup(c):
        c.lazy = True
    R = (opts or {}).get('R', 0)
    for p, ch, (pt, before, s) in seam.explore(body, cells=cells, stats=st, lazy=True, dev=dev):
        ctx = dict(filter=filt, smoother=sm, opts=opts, choices=ch)
        r.states += 1
        for t, x in enumerate(pt.traj):
            P = np.asarray(x.pa.part)
            if rep_of(P) != FILT or any((int(q[2]), int(q[3])) != digits(spec, t) for q in P):
                return r.fail('stored', 'step %d holds statistics %r, should be %r' % (t, P[:, 2:4].tolist(), digits(spec, t)), **ctx)
            if not np.array_equal(P, before[t]):
                return r.fail('changed', 'smoothing changed the forward particles of step %d' % t, **ctx)
        # the same random outcomes for the plain model give the same states
        try:
            _, ch2, (pt2, s2) = seam.replay(ref, ch, cells=cells, ctl_setup=setup)
        except seam.Divergence as e:
            return r.fail('plain', 'other random choices than for a model without statistics (%s)' % e, **ctx)
        if ch2 != ch or any(states(a.pa.part) != states(b.pa.part) or not np.max(np.abs(hmm.nw(a.pa.w) - hmm.nw(b.pa.w))) < 1e-12
                            or list(a.ancestors) != list(b.ancestors) for a, b in zip(pt.traj, pt2.traj)):
            return r.fail('plain', 'other forward particles than for a model without statistics', **ctx)
        if sm is None:
            r.outcome('forward')
            continue
        if any(states(a.pa.part) != states(b.pa.part) for a, b in zip(s.traj, s2.traj)):
            return r.fail('plain', 'other trajectories than for a model without statistics', **ctx)
        post = sum(1 for e in log if e[0] == 'post')
        pre = [k for k, e in enumerate(log) if e[0] == 'pre']
        if post != 1 or log[-1][0] != 'post':
            return r.fail('post', 'post_smoothing was called %d times%s' % (post, '' if log[-1][0] == 'post' else ' and not last'), **ctx)
        want = R if sm in ('mhips', 'mhips_reduced') else 0
        if len(pre) != want:
            return r.fail('pre', 'pre_mhips_pass was called %d times for %d passes' % (len(pre), want), **ctx)
        # every pass (or the one backward run) makes the smoothed particles of each time
        cuts = [0] + pre + [len(log) - 1]
        for a, b in zip(cuts[:-1], cuts[1:]):
            seen = sorted(set(e[1] for e in log[a:b] if e[0] == 'sample'))
            if seen != list(range(T)):
                return r.fail('sample', 'sample_smooth was called for the times %r in one pass' % seen, **ctx)
        for t, x in enumerate(s.traj):
            if x is not model.final[t] and not np.array_equal(x.pa.part, model.final[t].pa.part):
                return r.fail('post', 'the smoothed trajectory is not what post_smoothing returned (t=%d)' % t, **ctx)
        e = s.get_smoothed_estimates()
        if e.shape != (T, M, WIDTH[FINAL]) or any(not np.array_equal(e[t], model.final[t].pa.part) for t in range(T)):
            return r.fail('estimates', 'estimates of shape %r are not what post_smoothing returned' % (e.shape,), **ctx)
        r.outcome((tuple(map(tuple, (states(x.pa.part) for x in s.traj)))))
    r.add(st)
    r.sample(filter=filt, smoother=sm, opts=opts, N=N, M=M, T=T, executions=st.executions)


SMS = [(None, None), ('full', None), ('rs', {'R': 1}), ('rs', {'R': 0}), ('rsas', None), ('mcmc', {'R': 1}), ('mcmc', {'R': 2}), ('ancestor', None),
       ('mhips', {'R': 1}), ('mhips', {'R': 2}), ('mhips_reduced', {'R': 1}), ('mhips_reduced', {'R': 2}), ('mhbp', {'R': 1}), ('mhbp', {'R': 2})]


def tasks():
    out = []
    for k, (s, o) in enumerate(SMS):
        heavy = s in ('mhips', 'mhbp', 'mcmc') or s == 'mhips_reduced'
        R = (o or {}).get('R', 0)
        for filt in ('pf', 'apf'):
            for y0, missing, late in ((True, (), False), (False, (), False), (True, (1,), False), (True, (), True), (False, (2,), True)):
                d = 4 if THOROUGH else 3
                out.append(('f_run', dict(filt=filt, sm=s, opts=o, N=2, M=2, T=3, variant=k, y0=y0, missing=missing, late=late, dev=d)))
            # every outcome of short runs
            if not heavy or R == 1:
                out.append(('f_run', dict(filt=filt, sm=s, opts=o, N=2, M=1, T=2, variant=k + 1)))
            out.append(('f_run', dict(filt=filt, sm=s, opts=o, N=1, M=2, T=4, variant=k, missing=(3,), dev=2 if not THOROUGH else 3)))
            out.append(('f_run', dict(filt=filt, sm=s, opts=o, N=3, M=1, T=3, variant=k, dev=2 if not THOROUGH else 3)))
    return out
