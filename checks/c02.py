"""C02: all operation sequences up to a depth on particle approximations vs. a reference list."""
import itertools
import math
import numpy as np
from lib import seam
from lib.env import THOROUGH

CONFS = ('pure',)

WPATTERNS = {
    1: [(0.0,), (-3.0,)],
    2: [(0.0, 0.0), (math.log(0.9), math.log(0.1)), (-700.0, -702.0), (5.0, -np.inf), (-1500.0, 0.0)],
    3: [(0.0, 0.0, 0.0), (math.log(0.2), math.log(0.5), math.log(0.3)), (-np.inf, 1000.0, 1000.0),
        (math.log(0.6), math.log(0.1), math.log(0.3)), (-2.0, -2.0, 3.0), (-1000.0, 400.0, 399.0)],
    4: [(0.0,) * 4, (math.log(0.4), math.log(0.1), math.log(0.2), math.log(0.3)),
        (-np.inf, 0.0, -np.inf, -1.0), (-900.0, -901.0, -905.0, -900.0)],
    5: [(0.3, 0.1, 0.2, -0.4, -np.inf)],
}


class Mod(object):
    """Records calls to copy_ind (the model decides how particles are copied)."""

    def __init__(self):
        from pyparticleest.interfaces import ParticleFiltering
        self.base = ParticleFiltering

    def copy_ind(self, particles, new_ind=None):
        return self.base.copy_ind(self, particles, new_ind)


def norm(w):
    w = np.asarray(w, dtype=float)
    x = np.exp(w - np.max(w))
    return x / x.sum()


def check_state(r, pa, ref_ids, ref_w, hist):
    """pa agrees with the reference approximation (ids, log weights up to a constant)."""
    n = len(ref_ids)
    r.states += 1
    if len(pa) != n or pa.num != n or len(pa.part) != n or len(pa.w) != n:
        return r.fail('size', 'sizes %r/%r/%r/%r, should be %d' % (len(pa), pa.num, len(pa.part), len(pa.w), n), hist=hist)
    if not np.array_equal(np.asarray(pa.part, dtype=float)[:, 0], np.asarray(ref_ids)):
        return r.fail('part', 'particles %r, should be %r' % (pa.part, ref_ids), hist=hist)
    W = norm(ref_w)
    if not np.max(np.abs(norm(pa.w) - W)) <= 1e-9:
        return r.fail('weights', 'normalised weights %r, should be %r' % (norm(pa.w), W), hist=hist)
    ref_neff = 1.0 / np.sum(W ** 2)
    if not abs(pa.calc_Neff() - ref_neff) <= 1e-6:
        return r.fail('neff', 'Neff %r, should be %r' % (pa.calc_Neff(), ref_neff), hist=hist)
    before = (pa.part.copy(), pa.w.copy())
    for off in (0.0, 3.0, -1200.0):
        pa.w = before[1] + off
        neff = pa.calc_Neff()
        r.executions += 1
        if not abs(neff - 1.0 / np.sum(W ** 2)) <= 1e-6:
            return r.fail('neff', 'Neff %r, should be %r' % (neff, 1.0 / np.sum(W ** 2)), hist=hist, off=off)
        for k in range(1, n + 1):
            best = np.asarray(pa.find_best_particles(k), dtype=float)
            r.executions += 1
            r.transitions += 1
            if len(best) != k:
                return r.fail('best', 'find_best_particles(%d) returned %d' % (k, len(best)), hist=hist)
            got = [int(g) for g in best]
            if len(set(got)) != k or min(got) < 0 or max(got) >= n:
                return r.fail('best', 'find_best_particles(%d) = %r are not distinct indices' % (k, got), hist=hist)
            gw = sorted(W, reverse=True)[:k]
            mine = [W[g] for g in got]
            if not np.max(np.abs(np.asarray(mine) - np.asarray(gw))) <= 1e-12:
                return r.fail('best', 'find_best_particles(%d): weights %r, largest are %r' % (k, mine, gw), hist=hist)
        pa.w = before[1].copy()
    if not abs(pa.calc_Neff() - ref_neff) <= 1e-6:
        return r.fail('neff', 'Neff %r, should be %r' % (pa.calc_Neff(), ref_neff), hist=hist)
    best = np.asarray(pa.find_best_particles(), dtype=float)
    if len(best) != 1:
        return r.fail('best', 'default is one particle', hist=hist)
    if not np.array_equal(before[0], pa.part) or not np.array_equal(before[1], pa.w):
        return r.fail('query', 'a query changed the approximation', hist=hist)
    r.outcome((n, tuple(ref_ids)))
    return True


def f_seq(r, m, pat, depth, src):
    from pyparticleest.filter import ParticleApproximation
    mod = Mod()
    lw = WPATTERNS[m][pat]

    def fresh():
        ids = np.arange(m, dtype=float).reshape((-1, 1)) + 1
        ids = np.hstack((ids, -ids))
        w = np.asarray(lw, dtype=float)
        if src == 'arrays':
            pa = ParticleApproximation(ids, w)
        elif src == 'keywords':
            pa = ParticleApproximation(particles=ids, logw=w)
        elif src == 'uniform':
            pa = ParticleApproximation(ids)
            w = np.zeros(m)
        else:
            pa = ParticleApproximation([list(x) for x in ids], list(w))
        return ids, w, pa, [float(k + 1) for k in range(m)], [float(x) for x in w]

    ops = [('resample', None), ('resample', 1), ('resample', 2), ('resample', 4), ('reweight', 0), ('reweight', 1),
           ('inplace', 0),
           ('clobber', 0), ('copy', 0)]

    def run(seq, c):
        ids, w, pa, rid, rw = fresh()
        hist = [('new', src, m, pat)]
        if not check_state(r, pa, rid, rw, hist):
            return False
        srcs = [(ids, w)]
        for op, a in seq:
            hist.append((op, a))
            if op == 'resample':
                part_before = pa.part
                pb = pa.part.copy()
                n = len(rid) if a is None else a
                ind = pa.resample(mod, a) if a is not None else pa.resample(mod)
                ind = np.asarray(ind)
                if ind.shape != (n,):
                    return r.fail('resample', 'returned %r for N=%r' % (ind, a), hist=hist)
                rid = [rid[int(i)] for i in ind]
                rw = [0.0] * n
                if np.max(pa.w) - np.min(pa.w) > 0:
                    return r.fail('resample', 'weights %r not equal after resampling' % (pa.w,), hist=hist)
                if not np.array_equal(pb, part_before):
                    return r.fail('resample', 'the old particle array was modified', hist=hist)
                if np.shares_memory(part_before, pa.part):
                    return r.fail('alias', 'resampled particles share memory with the old ones', hist=hist)
            elif op == 'reweight':
                if a == 0:
                    add = np.asarray([-0.7 * ((3 * k) % 4) for k in range(len(rid))])
                else:
                    add = np.asarray([-400.0 * ((k + 1) % 3) for k in range(len(rid))])
                pa.w = pa.w + add
                rw = list(np.asarray(rw) + add)
            elif op == 'inplace':
                # the weights are changed where they are, as a filter step may do
                add = np.asarray([0.9 * ((k + 1) % 3) for k in range(len(rid))])
                pa.w += add
                rw = list(np.asarray(rw) + add)
            elif op == 'clobber':
                # whatever the caller does with the arrays it passed in, the approximation is its own
                for x, y in srcs:
                    x[:] = -77.0
                    y[:] = 1.0
            elif op == 'copy':
                new = ParticleApproximation(pa.part, pa.w)
                srcs.append((pa.part, pa.w))
                pa = new
            if not check_state(r, pa, rid, rw, hist):
                return False
        return True

    for d in (depth,):
        for seq in itertools.product(ops, repeat=d):
            st = seam.Stats()
            nd = sum(1 for o in seq if o[0] == 'resample')
            grid = {0: 1, 1: 8, 2: 5, 3: 3}.get(nd, 2)
            for p, ch, ok in seam.explore(lambda c: run(seq, c), cells=seam.make_cells((), grid), stats=st):
                if not ok:
                    r.violations[-1]['data']['choices'] = ch
                    r.add(st)
                    return
            r.add(st)
    r.sample(m=m, logw=[float(x) for x in lw], depth=depth)


def f_seed(r, n):
    """Construction from a seed particle: n independent copies."""
    from pyparticleest.filter import ParticleApproximation

    class Box(object):
        def __init__(self, v):
            self.v = [v]
    seed = Box(3.0)
    pa = ParticleApproximation(seed=seed, num=n)
    r.states += 1
    r.executions += 1
    r.transitions += n
    r.outcome(n)
    if len(pa) != n or pa.num != n or not np.max(np.abs(norm(pa.w) - 1.0 / n)) <= 1e-12:
        r.fail('seed', 'wrong size or weights', n=n)
        return
    if any(p is seed or p.v is seed.v for p in pa.part) or len(set(id(p) for p in pa.part)) != n:
        r.fail('seed', 'particles created from a seed are not independent copies', n=n)
    if any(p.v != [3.0] for p in pa.part):
        r.fail('seed', 'particles created from a seed differ from it', n=n)


def tasks():
    out = [('f_seed', dict(n=n)) for n in (1, 2, 3, 5)]
    for m in WPATTERNS:
        for pat in range(len(WPATTERNS[m])):
            for src in ('arrays', 'keywords', 'uniform', 'lists'):
                depth = 3 if src == 'arrays' else 2
                if THOROUGH and m <= 3:
                    depth += 1
                out.append(('f_seq', dict(m=m, pat=pat, depth=depth, src=src)))
    return out[::-1]
