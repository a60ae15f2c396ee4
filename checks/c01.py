"""C01 resampling law: every weight vector on a grid, every cell of the random number."""
import itertools
import math
import numpy as np
from lib import seam
from lib.env import THOROUGH

CONFS = ('pure',)


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in compositions(total - k, parts - 1):
            yield (k,) + r


def cells_for(w, n):
    pts = [0.0]
    s = list(np.cumsum(w))
    for c in s:
        x = (n * c) % 1.0
        pts += [x, 1.0 - x]
    return seam.make_cells(pts, grid=8)


def judge(r, key, w, n, draw, ctx):
    """draw() -> indices, under the seam."""
    m = len(w)
    exp = np.zeros(m)
    st = seam.Stats()
    wn = np.asarray(w, dtype=float)
    wn = wn / wn.sum()
    r.states += 1
    for p, ch, ind in seam.explore(lambda c: draw(), cells=cells_for(wn, n), stats=st):
        ind = np.asarray(ind)
        r.outcome(tuple(int(i) for i in ind))
        if ind.shape != (n,) or np.any(ind < 0) or np.any(ind >= m):
            return r.fail(key + ':invalid', 'invalid indices %r' % (ind,), ctx=ctx, choices=ch)
        cnt = np.bincount(ind.astype(int), minlength=m)
        if np.any(cnt[wn == 0] > 0):
            return r.fail(key + ':zero', 'an index with zero weight was drawn: %r' % (ind,), ctx=ctx, choices=ch)
        nw = n * wn
        if np.any(cnt < np.floor(nw - 1e-9)) or np.any(cnt > np.ceil(nw + 1e-9)):
            return r.fail(key + ':variance', 'counts %r not floor/ceil of %r' % (cnt, nw), ctx=ctx, choices=ch)
        exp += p * cnt
    r.add(st)
    if not np.max(np.abs(exp - n * wn)) <= 1e-9:
        return r.fail(key + ':bias', 'expected counts %r, should be %r' % (exp, n * wn), ctx=ctx)
    # the ends of the range of the random number generator have probability zero but do occur
    for u in (0.0, 2.0 ** -53, 1.0 - 2.0 ** -53):
        c = seam.Controller(cells=[(1.0, u)])
        with seam.active(c):
            ind = np.asarray(draw())
        r.executions += 1
        if ind.shape != (n,) or np.any(ind < 0) or np.any(ind >= m) or np.any(wn[ind] == 0):
            return r.fail(key + ':edge', 'random number %r gives %r for weights %r' % (u, ind, wn), ctx=ctx)
    r.sample(weights=list(wn), n=n, expected=list(exp))
    return True


def f_sample(r, m, G):
    from pyparticleest.filter import sample
    for comp in compositions(G, m):
        for scale in (1.0 / G, 1.0, 1e-200, 37.0):
            w = np.asarray(comp, dtype=float) * scale
            for n in range(1, 6 if not THOROUGH else 9):
                w0 = w.copy()
                if not judge(r, 'sample', w, n, lambda: sample(w, n), {'w': list(w), 'n': n}):
                    return
                if not np.array_equal(w, w0):
                    r.fail('sample:mutates', 'sample changed its weights', w=list(w0))
                    return
        # a plain list is array_like too
        if not judge(r, 'sample:list', np.asarray(comp) / float(G), 3,
                     lambda: sample([c / float(G) for c in comp], 3), {'w': comp}):
            return


def f_pa(r, m, G):
    from pyparticleest.filter import ParticleApproximation
    from pyparticleest.interfaces import ParticleFiltering

    class Mod(ParticleFiltering):
        pass
    mod = Mod()
    ids = np.arange(m, dtype=float).reshape((-1, 1)) + 10.0
    for comp in compositions(G, m):
        with np.errstate(divide='ignore'):
            lw0 = np.log(np.asarray(comp, dtype=float) / G)
        for off in (0.0, 3.7, -1500.0, 1e4):
            lw = lw0 + off
            for n in (None, 1, 2, m + 1):
                nn = m if n is None else n

                def draw():
                    pa = ParticleApproximation(ids, lw)
                    ind = pa.resample(mod, n) if n is not None else pa.resample(mod)
                    if not np.array_equal(pa.part, ids[ind]):
                        raise AssertionError('particles %r are not those of the returned indices %r' % (pa.part, ind))
                    return ind
                if not judge(r, 'resample', np.asarray(comp), nn, draw, {'w': comp, 'n': n, 'offset': off}):
                    return

            def draw1():
                pa = ParticleApproximation(ids, lw)
                x = pa.sample()
                return [int(round(float(np.ravel(x)[0]) - 10.0))]
            if not judge(r, 'pa.sample', np.asarray(comp), 1, draw1, {'w': comp, 'offset': off}):
                return


def f_large(r, m, n):
    from pyparticleest.filter import sample
    for pat in range(4):
        if pat == 0:
            w = np.ones(m)
        elif pat == 1:
            w = np.arange(m, dtype=float)
        elif pat == 2:
            w = np.asarray([float((7 * k) % 5) for k in range(m)])
        else:
            w = np.asarray([2.0 ** -(k % 40) for k in range(m)])
        if w.sum() == 0:
            continue
        w = w / w.sum()
        if not judge(r, 'large', w, n, lambda: sample(w, n), {'pattern': pat, 'm': m, 'n': n}):
            return


def tasks():
    out = [('f_large', dict(m=m, n=n)) for m in (2, 7, 40, 130) for n in (1, 3, 16, 100, 150)]
    for m in range(1, 6 if THOROUGH else 5):
        for G in ((1, 2, 3, 4, 5, 6, 7) if not THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11)):
            if m == 5 and G > 8:
                continue
            out.append(('f_sample', dict(m=m, G=G)))
            if G <= 6 or THOROUGH:
                out.append(('f_pa', dict(m=m, G=G)))
    return out[::-1]
