"""The random number seam and the exhaustive explorer.

Every entry point of numpy.random (module functions, RandomState, default_rng) and of the
standard library's random module is replaced by a dispatcher.  While an exploration is active
each random draw becomes a *choice* with exact branch probabilities:

 - a uniform number is one of finitely many cells of a partition of [0, 1) (representative: the
   midpoint); the partition contains every point at which correct code can change its behaviour
   in the scenario (given by the scenario) refined by a regular grid;
 - a permutation is one of all n! permutations;
 - a Gaussian number has a symmetric finite-support law with the right first two moments
   (+-1 or the 3-point Gauss-Hermite law), independent per scalar;
 - categorical draws of the harness' own models use `pick`.

`explore(body)` re-executes `body` for every sequence of choices (stateless depth first search by
prefix replay); a divergence while replaying a prefix is a hard error.
"""
import math
import itertools
import numpy as np
from lib import lazyu, pieces

_ctl = None          # active controller
_orig = {}
MAX_DRAWS = 20000


class Divergence(Exception):
    pass


class TooManyDraws(Exception):
    pass


class Unsupported(Exception):
    pass


def make_cells(points, grid=0):
    """Partition of [0,1) as a list of (probability, representative)."""
    pts = [0.0, 1.0]
    for p in points:
        p = float(p)
        if 1e-9 < p < 1 - 1e-9:
            pts.append(p)
    if grid:
        pts.extend(k / float(grid) for k in range(1, grid))
    pts.sort()
    out = [pts[0]]
    for p in pts[1:]:
        if p - out[-1] > 1e-9:
            out.append(p)
    out[-1] = 1.0
    return [(b - a, 0.5 * (a + b)) for a, b in zip(out[:-1], out[1:])]


NORMALS = {
    'pm1': ((0.5, -1.0), (0.5, 1.0)),
    'gh3': ((1 / 6.0, -math.sqrt(3.0)), (2 / 3.0, 0.0), (1 / 6.0, math.sqrt(3.0))),
    'zero': ((1.0, 0.0),),
}


class Controller(object):
    """One exploration; `cells` is a list of (prob, rep) or a callable returning one."""

    def __init__(self, cells=None, normal='pm1', prefix=()):
        self.cells = cells if cells is not None else make_cells((), 4)
        self.normal_law = NORMALS[normal]
        self.prefix = list(prefix)
        self.trace = []      # (index, number of options, prob)
        self.prob = 1.0
        self.draws = 0
        self.log = None      # optional list: (kind, value)
        self.lazy = False
        self.book = None     # pieces.Book: what is known about numbers used in an arbitrary way
        self.nconc = 0
        self.pending = None
        self.fingers = []

    def concretize(self, lo, hi):
        """Pieces [(length, representative)] of a lazy number, None: use the cells."""
        if self.book is None:
            return None
        key = (tuple(t[0] for t in self.trace), self.nconc)
        self.nconc += 1
        if key not in self.book.nodes:
            # (numpy may turn the exception into another one, so it is also noted)
            if self.pending is None:
                f = pieces.finger()
                # several numbers in a row at the same place
                k = 0
                while f is not None and k < len(self.fingers) and self.fingers[-1 - k] == f:
                    k += 1
                self.pending = pieces.Discover(key, lo, hi, None if f is None else f + (k,))
                self.pending.raw = f
            raise self.pending
        p, f = self.book.nodes[key]
        self.fingers.append(f)
        return None if p is None else [(b - a, 0.5 * (a + b)) for a, b in p]

    # -- choices
    def choose(self, probs, kind=''):
        n = len(probs)
        pos = len(self.trace)
        if pos >= MAX_DRAWS:
            raise TooManyDraws('more than %d random choices in one execution' % MAX_DRAWS)
        if pos < len(self.prefix):
            i, pn = self.prefix[pos]
            if pn != n:
                raise Divergence('choice %d had %d options, now %d (%s)' % (pos, pn, n, kind))
        else:
            i = 0
        self.trace.append((i, n))
        self.prob *= probs[i]
        return i

    def pick(self, probs, kind='pick'):
        """Index drawn with the given probabilities (zero-probability options are skipped)."""
        idx = [k for k, p in enumerate(probs) if p > 0.0]
        if len(idx) == 1:
            return idx[0]
        return idx[self.choose([probs[k] for k in idx], kind)]

    def u(self):
        cells = self.cells() if callable(self.cells) else self.cells
        i = self.choose([c[0] for c in cells], 'u')
        if self.log is not None:
            self.log.append(('u', cells[i][1]))
        return cells[i][1]

    def z(self):
        law = self.normal_law
        if len(law) == 1:
            return law[0][1]
        i = self.choose([c[0] for c in law], 'z')
        if self.log is not None:
            self.log.append(('z', law[i][1]))
        return law[i][1]

    def perm(self, n):
        if n <= 1:
            return np.arange(n)
        if n > 5:
            raise Unsupported('permutation of %d elements' % n)
        perms = list(itertools.permutations(range(n)))
        i = self.choose([1.0 / len(perms)] * len(perms), 'perm')
        if self.log is not None:
            self.log.append(('perm', perms[i]))
        return np.asarray(perms[i], dtype=int)

    # -- arrays
    def fill(self, gen, size):
        if size is None:
            return gen()
        shape = (size,) if np.isscalar(size) else tuple(int(s) for s in size)
        out = np.empty(shape)
        flat = out.reshape(-1)
        for k in range(flat.size):
            flat[k] = gen()
        return out


# ---- the replaced entry points -------------------------------------------------------------

def _uniform(low=0.0, high=1.0, size=None):
    c = _ctl
    if size is None and (np.ndim(low) or np.ndim(high)):
        size = np.broadcast(low, high).shape
    u = _unif(size)
    return low + (np.asarray(high) - np.asarray(low)) * u if (np.ndim(low) or np.ndim(high)) else low + (high - low) * u


def _unif(size):
    if _ctl.lazy:
        return lazyu.make(_ctl, size)
    return _ctl.fill(_ctl.u, size)


def _random(size=None, *a, **k):
    return _unif(size)


def _rand(*dims):
    return _unif(dims if dims else None)


def _randn(*dims):
    return _ctl.fill(_ctl.z, dims if dims else None)


def _standard_normal(size=None, *a, **k):
    return _ctl.fill(_ctl.z, size)


def _normal(loc=0.0, scale=1.0, size=None):
    c = _ctl
    if size is None and (np.ndim(loc) or np.ndim(scale)):
        size = np.broadcast(loc, scale).shape
    z = c.fill(c.z, size)
    if np.ndim(loc) or np.ndim(scale) or np.ndim(z):
        return np.asarray(loc) + np.asarray(scale) * z
    return loc + scale * z


def sqrtm_psd(cov):
    w, v = np.linalg.eigh(0.5 * (cov + cov.T))
    return v * np.sqrt(np.clip(w, 0.0, None))


def _multivariate_normal(mean, cov, size=None, *a, **k):
    c = _ctl
    mean = np.asarray(mean, dtype=float)
    cov = np.asarray(cov, dtype=float)
    n = mean.shape[0]
    if cov.shape != (n, n) or mean.ndim != 1:
        raise ValueError('mean and cov must have same length')
    shape = () if size is None else ((size,) if np.isscalar(size) else tuple(size))
    f = sqrtm_psd(cov)
    live = np.flatnonzero(np.abs(f).sum(axis=0) > 1e-14)
    out = np.empty(shape + (n,))
    flat = out.reshape(-1, n)
    for i in range(flat.shape[0]):
        e = np.zeros(n)
        for j in live:
            e[j] = c.z()
        flat[i] = mean + f.dot(e)
    return out


def _permutation(x, *a):
    if np.ndim(x) == 0:
        x = np.arange(int(x))
    x = np.asarray(x)
    return x[_ctl.perm(len(x))]


def _shuffle(x, *a):
    p = _ctl.perm(len(x))
    if isinstance(x, np.ndarray):
        x[:] = x[p].copy()
    else:
        x[:] = [x[i] for i in p]


def _choice(a, size=None, replace=True, p=None, *args, **kw):
    c = _ctl
    arr = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
    n = len(arr)
    probs = np.ones(n) / n if p is None else np.asarray(p, dtype=float)
    if abs(probs.sum() - 1.0) > 1e-6 or np.any(probs < 0):
        raise ValueError('probabilities do not sum to 1')
    if size is None:
        return arr[c.pick(list(probs))]
    shape = (size,) if np.isscalar(size) else tuple(size)
    m = int(np.prod(shape))
    idx = np.empty(m, dtype=int)
    pr = probs.copy()
    for k in range(m):
        idx[k] = c.pick(list(pr))
        if not replace:
            pr[idx[k]] = 0.0
            if pr.sum() > 0:
                pr /= pr.sum()
    return arr[idx].reshape(shape + arr.shape[1:])


def _randint(low, high=None, size=None, dtype=int, **k):
    if high is None:
        low, high = 0, low
    c = _ctl
    n = int(high) - int(low)
    r = c.fill(lambda: low + c.pick([1.0 / n] * n), size)
    return int(r) if size is None else np.asarray(r, dtype=int)


def _multinomial(n, pvals, size=None):
    if size is not None:
        raise Unsupported('multinomial size')
    out = np.zeros(len(pvals), dtype=int)
    for _ in range(int(n)):
        out[_ctl.pick(list(pvals))] += 1
    return out


def _exponential(scale=1.0, size=None):
    return scale * -np.log(1.0 - np.asarray(_ctl.fill(_ctl.u, size)))


_REPL = {
    'rand': _rand, 'random': _random, 'random_sample': _random, 'ranf': _random, 'sample': _random,
    'uniform': _uniform, 'normal': _normal, 'standard_normal': _standard_normal, 'randn': _randn,
    'multivariate_normal': _multivariate_normal, 'permutation': _permutation, 'permuted': _permutation,
    'shuffle': _shuffle, 'choice': _choice, 'randint': _randint, 'integers': _randint,
    'random_integers': lambda low, high=None, size=None: _randint(low if high is not None else 1, (high if high is not None else low) + 1, size),
    'multinomial': _multinomial, 'exponential': _exponential, 'standard_exponential': lambda size=None, *a, **k: _exponential(1.0, size),
    'seed': lambda *a, **k: None, 'set_state': lambda *a, **k: None,
}
_BLOCK = ['beta', 'binomial', 'bytes', 'chisquare', 'dirichlet', 'f', 'gamma', 'geometric', 'gumbel',
          'hypergeometric', 'laplace', 'logistic', 'lognormal', 'logseries', 'negative_binomial',
          'noncentral_chisquare', 'noncentral_f', 'pareto', 'poisson', 'power', 'rayleigh',
          'standard_cauchy', 'standard_gamma', 'standard_t', 'triangular', 'vonmises', 'wald',
          'weibull', 'zipf']


class _FakeGenerator(object):
    """Stands for RandomState / Generator objects created while an exploration is active."""

    def __getattr__(self, name):
        if name in _REPL:
            return _REPL[name]
        raise Unsupported('numpy.random generator method %s' % name)


def _dispatch(name, orig, repl):
    def f(*a, **k):
        if _ctl is None:
            return orig(*a, **k)
        if repl is None:
            raise Unsupported('numpy.random.%s' % name)
        return repl(*a, **k)
    f.__name__ = name
    return f


def install():
    """Patch the entry points (once)."""
    if _orig:
        return
    nr = np.random
    for name, repl in _REPL.items():
        if hasattr(nr, name):
            _orig[name] = getattr(nr, name)
            setattr(nr, name, _dispatch(name, _orig[name], repl))
    for name in _BLOCK:
        if hasattr(nr, name):
            _orig[name] = getattr(nr, name)
            setattr(nr, name, _dispatch(name, _orig[name], None))

    def wrap_ctor(orig):
        def f(*a, **k):
            if _ctl is None:
                return orig(*a, **k)
            return _FakeGenerator()
        return f
    _orig['default_rng'] = nr.default_rng
    nr.default_rng = wrap_ctor(nr.default_rng)
    _orig['RandomState'] = nr.RandomState

    class RandomState(nr.RandomState):
        def __new__(cls, *a, **k):
            if _ctl is None:
                return _orig['RandomState'](*a, **k)
            return _FakeGenerator()
    nr.RandomState = RandomState
    for name in ('array', 'asarray', 'asanyarray'):
        _orig[name] = getattr(np, name)
        setattr(np, name, _wrap_array(name, _orig[name]))
    import random as pr
    prm = {'random': lambda: _unif(None), 'uniform': lambda a, b: a + (b - a) * _unif(None),
           'gauss': lambda mu=0.0, sigma=1.0: mu + sigma * _ctl.z(),
           'normalvariate': lambda mu=0.0, sigma=1.0: mu + sigma * _ctl.z(),
           'choice': lambda s: s[_ctl.pick([1.0 / len(s)] * len(s))],
           'randrange': lambda a, b=None, step=1: (lambda r: r[_ctl.pick([1.0 / len(r)] * len(r))])(range(a) if b is None else range(a, b, step)),
           'randint': lambda a, b: a + _ctl.pick([1.0 / (b - a + 1)] * (b - a + 1)),
           'shuffle': _shuffle,
           'choices': lambda pop, weights=None, k=1, **kw: [pop[_ctl.pick(list(np.asarray(weights if weights is not None else np.ones(len(pop)), dtype=float) / np.sum(weights if weights is not None else np.ones(len(pop)))))] for _ in range(k)],
           }
    for name, repl in prm.items():
        _orig['random.' + name] = getattr(pr, name)
        setattr(pr, name, _dispatch('random.' + name, getattr(pr, name), repl))


def _wrap_array(name, orig):
    """numpy.array & co. keep sequences of lazy numbers lazy."""
    def f(obj, *a, **k):
        if _ctl is not None and _ctl.lazy and isinstance(obj, (list, tuple, lazyu.LazyU)) and lazyu.has_lazy(obj):
            dt = a[0] if a else k.get('dtype')
            if dt is None or dt is float or (dt is not object and np.dtype(dt) == np.dtype(float)):
                r = lazyu.stack(obj)
                if r is not None:
                    if name == 'array' or r is obj and k.get('copy'):
                        r = r.copy()
                    while r.ndim < k.get('ndmin', 0):
                        r = r.reshape((1,) + r.shape)
                    return r
        return orig(obj, *a, **k)
    f.__name__ = name
    return f


class active(object):
    """Context manager: controller `c` decides all random draws."""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        global _ctl
        self.prev = _ctl
        _ctl = self.c
        return self.c

    def __exit__(self, *a):
        global _ctl
        _ctl = self.prev
        return False


def current():
    return _ctl


def pick(probs):
    """For the harness' own models."""
    return _ctl.pick(probs)


class Probe(Controller):
    """A forced execution: given choices, then a given number, then fixed decisions."""

    def __init__(self, cells, normal, book, key, value, policy):
        Controller.__init__(self, cells, normal)
        self.book, self.key, self.value, self.policy = book, key, value, policy
        self.later = []
        self.watch = pieces.Watch()
        self.past = False

    def choose(self, probs, kind=''):
        pos = len(self.trace)
        n = len(probs)
        if pos >= MAX_DRAWS:
            raise TooManyDraws('more than %d random choices in one execution' % MAX_DRAWS)
        if pos < len(self.key[0]):
            i = self.key[0][pos]
        else:
            self.later.append((kind, list(probs)))
            i = 0 if self.policy == 'first' else n - 1 if self.policy == 'last' else (7 * pos + 3) % n
        self.trace.append((i, n))
        self.prob *= probs[i]
        return i

    def concretize(self, lo, hi):
        if not self.past:
            key = (tuple(t[0] for t in self.trace), self.nconc)
            self.nconc += 1
            if key == self.key:
                self.past = True
                self.watch.start()
                return float(self.value)
            p = self.book.nodes.get(key, (None, None))[0]
            return None if p is None else [(b - a, 0.5 * (a + b)) for a, b in p]
        self.nconc += 1
        f = 0.37 if self.policy == 'first' else 0.81 if self.policy == 'last' else (0.59, 0.13)[self.nconc % 2]
        return float(lo + f * (hi - lo))


def _discover(d, body, cells, normal, book, ctl_setup, lazy):
    def run(key, value, policy):
        c = Probe(cells, normal, book, key, value, policy)
        c.lazy = lazy
        if ctl_setup is not None:
            ctl_setup(c)
        with active(c):
            try:
                res = body(c)
            except TimeoutError:
                raise
            except Exception as e:
                res = ('exception', type(e).__name__)
            finally:
                did = c.watch.stop()
        return c.later, res, did
    pieces.USED += 1
    book.nodes[d.key] = (pieces.find(book, d, run), d.raw)


_last_book = None


class Stream(Controller):
    """One fixed schedule: every choice is decided by a linear congruential sequence (for sizes
    beyond what can be enumerated; the result is judged like any other execution)."""

    def __init__(self, seed, normal='pm1'):
        Controller.__init__(self, make_cells((), 97), normal)
        self.state = 12345 + 7919 * seed

    def number(self):
        self.state = (1103515245 * self.state + 12345) % (1 << 31)
        return (self.state >> 8) / float(1 << 23)

    def choose(self, probs, kind=''):
        n = len(probs)
        x = self.number() * sum(probs)
        i = 0
        while i < n - 1 and x >= probs[i]:
            x -= probs[i]
            i += 1
        if len(self.trace) >= 50 * MAX_DRAWS:
            raise TooManyDraws('too many random choices in one execution')
        self.trace.append((i, n))
        self.prob *= probs[i]
        return i

    def perm(self, n):
        out = list(range(n))
        for k in range(n - 1, 0, -1):
            j = int(self.number() * (k + 1))
            out[k], out[j] = out[j], out[k]
        return np.asarray(out, dtype=int)


class Schedule(list):
    """The choices of a fixed schedule."""
    seed = 0


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.transitions = 0   # choice points taken for the first time
        self.maxdepth = 0


def explore(body, cells=None, normal='pm1', stats=None, limit=None, ctl_setup=None, lazy=False, dev=None):
    """Yield (prob, choices, result) for every choice sequence of body(ctl).

    dev: only the sequences with at most `dev` choices other than the first option (a
    deviation bound, as in delay-bounded scheduling); exhaustive within that bound.
    dev = list of numbers: only the fixed schedules with these numbers."""
    global _last_book
    if isinstance(dev, (list, tuple)):
        for seed in dev:
            c = Stream(seed, normal)
            if ctl_setup is not None:
                ctl_setup(c)
            c.lazy = False
            with active(c):
                res = body(c)
            if stats is not None:
                stats.executions += 1
                stats.transitions += len(c.trace)
            ch = Schedule(t[0] for t in c.trace)
            ch.seed = seed
            yield 1.0 / len(dev), ch, res
        return
    prefix = []
    first_new = 0
    total = 0.0
    n = 0
    book = pieces.Book()
    while True:
        c = Controller(cells, normal, prefix)
        c.lazy = lazy
        c.book = book
        _last_book = book
        if ctl_setup is not None:
            ctl_setup(c)
        with active(c):
            try:
                res = body(c)
            except pieces.Discover:
                if c.pending is None:
                    raise
            except Exception as e:
                if c.pending is None or isinstance(e, TimeoutError):
                    e.choices = [t[0] for t in c.trace]
                    raise
        if c.pending is not None:
            _discover(c.pending, body, cells, normal, book, ctl_setup, lazy)
            continue
        if len(c.trace) < len(prefix):
            raise Divergence('execution used fewer choices than its prefix')
        n += 1
        total += c.prob
        if stats is not None:
            stats.executions += 1
            stats.transitions += len(c.trace) - first_new
            stats.maxdepth = max(stats.maxdepth, len(c.trace))
        yield c.prob, [t[0] for t in c.trace], res
        # next prefix
        tr = c.trace
        k = len(tr) - 1
        if dev is None:
            while k >= 0 and tr[k][0] + 1 >= tr[k][1]:
                k -= 1
        else:
            used = sum(1 for i, _ in tr if i)
            while k >= 0:
                before = used - (1 if tr[k][0] else 0)
                if tr[k][0] + 1 < tr[k][1] and before + 1 <= dev:
                    break
                used = before
                k -= 1
        if k < 0:
            break
        prefix = list(tr[:k]) + [(tr[k][0] + 1, tr[k][1])]
        first_new = k
        if limit is not None and n >= limit:
            raise RuntimeError('exploration limit %d reached' % limit)
    if dev is None and abs(total - 1.0) > 1e-6:
        raise RuntimeError('branch probabilities sum to %r' % total)


def replay(body, choices, cells=None, normal='pm1', ctl_setup=None):
    """Execute the single path given by a list of choice indices."""
    class R(Controller):
        def choose(self, probs, kind=''):
            pos = len(self.trace)
            i = choices[pos] if pos < len(choices) else 0
            if i >= len(probs):
                raise Divergence('replayed choice out of range')
            self.trace.append((i, len(probs)))
            self.prob *= probs[i]
            return i
    if isinstance(choices, Schedule):
        c = Stream(choices.seed, normal)
        if ctl_setup is not None:
            ctl_setup(c)
        c.lazy = False
        with active(c):
            res = body(c)
        return c.prob, [t[0] for t in c.trace], res
    book = _last_book if _last_book is not None else pieces.Book()
    while True:
        c = R(cells, normal)
        c.book = book
        if ctl_setup is not None:
            ctl_setup(c)
        with active(c):
            try:
                res = body(c)
            except pieces.Discover:
                if c.pending is None:
                    raise
            except Exception as e:
                if c.pending is None or isinstance(e, TimeoutError):
                    raise
        if c.pending is None:
            return c.prob, [t[0] for t in c.trace], res
        _discover(c.pending, body, cells, normal, book, ctl_setup, c.lazy)
