"""Uniform random numbers whose value is decided only as far as the program looks at it.

A `LazyU` is an array of numbers f_k(U_k), where U_k is an independent uniform number on [0, 1) of
which the controller only knows an interval, and f_k is affine or the logarithm of an affine function.
Comparing it, or locating it in a sorted table, splits the interval at exactly the point where the
outcome changes; the controller explores every side with its exact (conditional) probability.  So an
exploration enumerates *all* behaviours of the code that looks at its random numbers this way, without
any discretisation.  Any other use makes the number concrete: the explorer (seam.explore) then finds
the pieces of its interval on which the rest of the execution behaves the same (lib/pieces.py) and takes
one representative of each; where there is no finite set of pieces, one of the controller's cells.
"""
import math
import numpy as np

TINY = 1e-11


class Var(object):
    __slots__ = ('lo', 'hi', 'val', 'ctl')

    def __init__(self, ctl):
        self.lo, self.hi, self.val, self.ctl = 0.0, 1.0, None, ctl

    def split(self, points):
        """Index of the piece of [lo, hi] (cut at the sorted points) in which the number lies."""
        pts = list(points)
        if self.val is not None:
            return int(np.searchsorted(pts, self.val, side='right'))
        pieces = []
        prev = self.lo
        for i, p in enumerate(pts + [float('inf')]):
            q = min(max(p, self.lo), self.hi) if p == p else self.lo
            if q - prev > TINY:
                pieces.append((i, prev, q))
                prev = q
        if not pieces:
            return int(np.searchsorted(pts, 0.5 * (self.lo + self.hi), side='right'))
        if len(pieces) == 1:
            return pieces[0][0]
        w = self.hi - self.lo
        k = self.ctl.choose([(b - a) / w for _, a, b in pieces], 'split')
        i, self.lo, self.hi = pieces[k]
        if k == 0:
            pass
        return i

    def concrete(self):
        if self.val is None:
            opts = self.ctl.concretize(self.lo, self.hi)
            if opts is None:
                cells = self.ctl.cells() if callable(self.ctl.cells) else self.ctl.cells
                a = 0.0
                opts = []
                for p, _ in cells:
                    b = a + p
                    l, h = max(a, self.lo), min(b, self.hi)
                    if h - l > TINY:
                        opts.append((h - l, 0.5 * (l + h)))
                    a = b
            if isinstance(opts, float):
                self.val = opts
            elif not opts:
                self.val = 0.5 * (self.lo + self.hi)
            else:
                tot = sum(o[0] for o in opts)
                k = self.ctl.choose([o[0] / tot for o in opts], 'u') if len(opts) > 1 else 0
                self.val = opts[k][1]
        return self.val


class _NoVar(object):
    """In place of the number of a constant element."""
    __slots__ = ()

    def split(self, points):
        return 0

    def concrete(self):
        return 0.0


CONST = _NoVar()


def stack(obj):
    """LazyU made of a (nested) sequence of numbers some of which are random; None if impossible."""
    if isinstance(obj, LazyU):
        return obj
    if isinstance(obj, (list, tuple)):
        parts = [stack(o) for o in obj]
        if any(p is None for p in parts) or not parts:
            return None
        logs = set(p.islog for p in parts if not p.constant())
        if len(logs) > 1 or len(set(p.shape for p in parts)) > 1:
            return None
        lg = logs.pop() if logs else False
        parts = [p.aslog() if lg and not p.islog else p for p in parts]
        v = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            v[i] = p.v if p.ndim else p.v[()]
        return LazyU(v, np.array([p.a for p in parts]), np.array([p.b for p in parts]), lg)
    try:
        b = np.array(obj, dtype=float)
    except (TypeError, ValueError):
        return None
    v = np.empty(b.shape, dtype=object)
    v[...] = CONST
    return LazyU(v, np.zeros(b.shape), b)


def has_lazy(obj, depth=3):
    if isinstance(obj, LazyU):
        return True
    if depth and isinstance(obj, (list, tuple)):
        for o in obj:
            t = type(o)
            if t is float or t is int:
                continue
            if has_lazy(o, depth - 1):
                return True
    return False


STRUCT = frozenset(['repeat', 'tile', 'broadcast_to', 'transpose', 'expand_dims', 'flip', 'roll', 'take',
                    'swapaxes', 'moveaxis', 'atleast_1d', 'atleast_2d', 'flipud', 'fliplr', 'diagonal',
                    'concatenate', 'hstack', 'vstack', 'stack', 'append', 'column_stack', 'delete', 'insert',
                    'split', 'array_split', 'reshape', 'ravel', 'squeeze', 'copy', 'rollaxis', 'compress', 'dstack'])


class LazyU(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 1000

    def __init__(self, v, a, b, islog=False):
        self.v = v          # object array of Var
        self.a = a          # float arrays of the same shape
        self.b = b
        self.islog = islog

    # -- array-like
    @property
    def shape(self):
        return self.v.shape

    @property
    def ndim(self):
        return self.v.ndim

    @property
    def size(self):
        return self.v.size

    @property
    def T(self):
        return LazyU(self.v.T, self.a.T, self.b.T, self.islog)

    @property
    def dtype(self):
        return np.dtype(float)

    def __len__(self):
        return len(self.v)

    def _sub(self, f):
        v, a, b = f(self.v), f(self.a), f(self.b)
        if not isinstance(v, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = v
            v, a, b = o, np.asarray(a), np.asarray(b)
        return LazyU(v, a, b, self.islog)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, i):
        if isinstance(i, LazyU):
            i = i.__array__()
        return self._sub(lambda x: x[i])

    def constant(self):
        return all(x is CONST for x in self.v.reshape(-1))

    def aslog(self):
        """The same numbers as logarithms (constants only)."""
        return LazyU(self.v, self.a, np.exp(self.b), True)

    def __setitem__(self, i, val):
        if isinstance(i, LazyU):
            i = i.__array__()
        x = stack(val)
        if x is None:
            raise TypeError('assignment to random numbers')
        if x.islog != self.islog:
            if not x.constant():
                x = stack(x.__array__())
            if self.islog:
                x = x.aslog()
        if not self.v.flags.writeable:
            self.v = self.v.copy()
        if not self.a.flags.writeable or not self.b.flags.writeable:
            self.a, self.b = self.a.copy(), self.b.copy()
        self.v[i], self.a[i], self.b[i] = x.v if x.ndim else x.v[()], x.a, x.b

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def ravel(self, *a):
        return self._sub(lambda x: x.ravel())

    flatten = ravel

    def reshape(self, *s, **k):
        return self._sub(lambda x: x.reshape(*s))

    def squeeze(self, *a):
        return self._sub(lambda x: x.squeeze(*a))

    def copy(self, *a):
        return self._sub(lambda x: x.copy())

    def __array__(self, dtype=None, copy=None):
        out = np.empty(self.shape)
        for idx in np.ndindex(*self.shape):
            x = self.a[idx] * self.v[idx].concrete() + self.b[idx]
            out[idx] = (math.log(x) if x > 0 else -math.inf) if self.islog else x
        return out if dtype is None else out.astype(dtype)

    def __float__(self):
        return float(self.__array__().reshape(-1)[0])

    def _steps(self, up):
        """floor (up=False) or ceiling, splitting at the whole numbers; None if there are too many."""
        out = np.empty(self.shape)
        if self.islog:
            return None
        for idx in np.ndindex(*self.shape):
            v, a, b = self.v[idx], self.a[idx], self.b[idx]
            if v is CONST or a == 0 or v.val is not None:
                x = b if v is CONST or a == 0 else a * v.val + b
                out[idx] = math.ceil(x) if up else math.floor(x)
                continue
            lo, hi = sorted((a * v.lo + b, a * v.hi + b))
            if hi - lo > 60:
                return None
            ks = list(range(int(math.floor(lo)), int(math.ceil(hi)) + 1))
            pts = [(k - b) / a for k in ks]
            k = v.split(pts) if a > 0 else len(pts) - v.split(pts[::-1])
            fl = ks[0] - 1 + k
            out[idx] = fl + 1 if up else fl
        return out

    def __int__(self):
        r = self._steps(False) if self.size == 1 else None
        if r is None:
            return int(float(self))
        r = r.reshape(-1)[0]
        if r < 0:                    # truncation
            r = self._steps(True).reshape(-1)[0]
        return int(r)

    __trunc__ = __int__

    def __floor__(self):
        r = self._steps(False) if self.size == 1 else None
        return int(math.floor(float(self)) if r is None else r.reshape(-1)[0])

    def __ceil__(self):
        r = self._steps(True) if self.size == 1 else None
        return int(math.ceil(float(self)) if r is None else r.reshape(-1)[0])

    def astype(self, t, *a, **k):
        if np.issubdtype(np.dtype(t), np.integer):
            r = self._steps(False)
            if r is not None and np.all(r >= 0):
                return r.astype(t)
        elif np.dtype(t) == np.dtype(float):
            return self.copy()
        return self.__array__().astype(t, *a, **k)

    def __bool__(self):
        return bool(self.__array__())

    def item(self, *a):
        return self.__array__().item(*a)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.__array__(), name)

    # -- transformations
    def _affine(self, mul, add):
        mul, add = np.asarray(mul, dtype=float), np.asarray(add, dtype=float)
        sh = np.broadcast_shapes(self.shape, mul.shape, add.shape)
        v = np.broadcast_to(self.v, sh)
        if self.islog:
            # log(a u + b) + add
            e = np.exp(add)
            return LazyU(v, self.a * e * np.ones(sh), self.b * e * np.ones(sh), True)
        return LazyU(v, self.a * mul * np.ones(sh), self.b * mul + add + np.zeros(sh), False)

    def _less(self, thr, strict=True):
        """Elementwise self < thr (or <=, which differs for constants only)."""
        thr = np.asarray(thr, dtype=float)
        sh = np.broadcast_shapes(self.shape, thr.shape)
        v, a, b, t = (np.broadcast_to(x, sh) for x in (self.v, self.a, self.b, thr))
        out = np.empty(sh, dtype=bool)
        for idx in np.ndindex(*sh):
            c = t[idx]
            if c != c:
                out[idx] = False
                continue
            if self.islog:
                c = math.exp(c) if c < 700 else math.inf
            if a[idx] == 0:
                out[idx] = b[idx] < c if strict else b[idx] <= c
                continue
            p = (c - b[idx]) / a[idx]
            left = v[idx].split([p]) == 0
            out[idx] = left if a[idx] > 0 else not left
        return out if sh else bool(out[()])

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get('out')
        if out is not None and len(out) == 1 and isinstance(out[0], LazyU) and len(kw) == 1 and method == '__call__':
            o = out[0]
            r = self.__array_ufunc__(ufunc, method, *inputs)
            if not o.ndim and o is inputs[0]:
                return r                 # u += x rebinds a scalar
            if not isinstance(r, LazyU):
                r = stack(r)
            o.v, o.a, o.b, o.islog = np.broadcast_to(r.v, o.shape).copy(), r.a + np.zeros(o.shape), r.b + np.zeros(o.shape), r.islog
            return o
        if out is not None and len(out) == 1 and out[0] is None:
            kw.pop('out')
        if method == '__call__' and not kw:
            n = ufunc.__name__
            if len(inputs) == 1:
                x = inputs[0]
                if n == 'log' and not x.islog:
                    return LazyU(x.v, x.a, x.b, True)
                if n == 'exp' and x.islog:
                    return LazyU(x.v, x.a, x.b, False)
                if n == 'negative' and not x.islog:
                    return x._affine(-1.0, 0.0)
                if n == 'positive':
                    return x
                if n == 'isnan':
                    return np.zeros(x.shape, dtype=bool) if x.shape else False
                if n == 'isfinite':
                    return np.ones(x.shape, dtype=bool) if x.shape else True
                if n in ('floor', 'ceil'):
                    r = x._steps(n == 'ceil')
                    if r is not None:
                        return r if r.shape else np.float64(r[()])
                if n == 'log1p' and not x.islog:
                    return LazyU(x.v, x.a, x.b + 1.0, True)
            elif len(inputs) == 2:
                x, y = inputs
                lx, ly = isinstance(x, LazyU), isinstance(y, LazyU)
                if lx and ly and not x.islog and not y.islog and n in ('add', 'subtract', 'less', 'less_equal', 'greater', 'greater_equal'):
                    sh = np.broadcast_shapes(x.shape, y.shape)
                    xv, yv = np.broadcast_to(x.v, sh), np.broadcast_to(y.v, sh)
                    if all(p is q or p is CONST or q is CONST for p, q in zip(xv.reshape(-1), yv.reshape(-1))):
                        v = np.empty(sh, dtype=object)
                        for idx in np.ndindex(*sh):
                            v[idx] = yv[idx] if xv[idx] is CONST else xv[idx]
                        sg = 1.0 if n == 'add' else -1.0
                        d = LazyU(v, x.a + sg * y.a + np.zeros(sh), x.b + sg * y.b + np.zeros(sh))
                        if n in ('add', 'subtract'):
                            return d
                        return (d if n.startswith('less') else -d)._less(0.0, not n.endswith('equal'))
                if lx != ly and n in ('equal', 'not_equal'):
                    z, o = (x, y) if lx else (y, x)
                    if isinstance(o, (int, float, np.ndarray, np.generic)) and np.asarray(o).dtype.kind in 'fiub' \
                            and not any(q is CONST or q.val is not None for q in z.v.reshape(-1)) and not np.any(z.a == 0):
                        r = np.zeros(np.broadcast_shapes(z.shape, np.shape(o)), dtype=bool)      # probability zero
                        r = r if n == 'equal' else ~r
                        return r if r.shape else bool(r)
                if lx != ly:
                    z, o = (x, y) if lx else (y, x)
                    try:
                        o = np.asarray(o, dtype=float)
                    except (TypeError, ValueError):
                        o = None
                    if o is not None:
                        nan = bool(np.any(np.isnan(o)))
                        if n == 'add' and np.all(np.isfinite(o)):
                            return z._affine(1.0, o)
                        if n == 'subtract' and np.all(np.isfinite(o)):
                            if lx:
                                return z._affine(1.0, -o)
                            if not z.islog:
                                return z._affine(-1.0, o)
                        if n == 'multiply' and not z.islog:
                            return z._affine(o, 0.0)
                        if n in ('divide', 'true_divide') and lx and not z.islog:
                            return z._affine(1.0 / o, 0.0)
                        if n in ('less', 'less_equal', 'greater', 'greater_equal'):
                            lt = (n.startswith('less')) == lx     # z < o wanted?
                            r = z._less(o, n.endswith('equal') != lt)
                            if lt:
                                return r
                            if nan:
                                return np.logical_and(np.logical_not(r), np.logical_not(np.isnan(o)))
                            return (not r) if isinstance(r, bool) else np.logical_not(r)
        conv = [i.__array__() if isinstance(i, LazyU) else i for i in inputs]
        return getattr(ufunc, method)(*conv, **kw)

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n in ('searchsorted', 'digitize'):
            r = self._locate(n, *args, **kwargs)
            if r is not None:
                return r
        if n in STRUCT:
            r = self._structural(func, args, kwargs)
            if r is not None:
                return r
        if n in ('ndim', 'shape', 'size') and isinstance(args[0], LazyU) and len(args) == 1:
            return getattr(args[0], n)

        def conv(x):
            if isinstance(x, LazyU):
                return x.__array__()
            if isinstance(x, (list, tuple)):
                return type(x)(conv(i) for i in x)
            return x
        return func(*[conv(x) for x in args], **{k: conv(x) for k, x in kwargs.items()})

    @staticmethod
    def _structural(func, args, kwargs):
        """Functions that only arrange elements: applied to the numbers and their coefficients alike."""
        logs, consts = set(), []

        def conv(x, which):
            if isinstance(x, LazyU):
                if not x.constant():
                    logs.add(x.islog)
                elif not x.islog:
                    consts.append(1)
                return getattr(x, which)
            if isinstance(x, (list, tuple)) and has_lazy(x):
                return type(x)(conv(stack(i) if not isinstance(i, LazyU) else i, which) for i in x)
            return x
        seq = args[0] if args else None
        if isinstance(seq, (list, tuple)) and not has_lazy(seq) or isinstance(seq, np.ndarray):
            seq = stack(np.asarray(seq))
            args = (seq,) + tuple(args[1:])
        if func.__name__ in ('append', 'insert') and len(args) >= 2:
            last = 1 if func.__name__ == 'append' else 2
            if len(args) > last and not has_lazy(args[last]):
                args = tuple(args[:last]) + (stack(np.asarray(args[last], dtype=float)),) + tuple(args[last + 1:])
        try:
            res = []
            for which in ('v', 'a', 'b'):
                res.append(func(*[conv(x, which) for x in args], **{k: conv(x, which) for k, x in kwargs.items()}))
        except (TypeError, ValueError, IndexError):
            return None
        if len(logs) > 1 or (True in logs and consts):
            return None
        lg = logs.pop() if logs else False
        if isinstance(res[0], (list, tuple)):
            return [LazyU(v, a, b, lg) for v, a, b in zip(*res)]
        if not isinstance(res[0], np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = res[0]
            res = [o, np.asarray(res[1]), np.asarray(res[2])]
        return LazyU(res[0], res[1], res[2], lg)

    @staticmethod
    def _locate(n, first, second, *rest, **kw):
        if n == 'searchsorted':
            table, x = first, second
            side = rest[0] if rest else kw.get('side', 'left')
            if kw.get('sorter') is not None or len(rest) > 1:
                return None
        else:
            table, x = second, first
        if not isinstance(x, LazyU) or isinstance(table, LazyU) or x.islog:
            return None
        table = np.asarray(table, dtype=float)
        if table.ndim != 1 or np.any(np.isnan(table)) or np.any(np.diff(table) < 0):
            return None
        out = np.empty(x.shape, dtype=int)
        for idx in np.ndindex(*x.shape):
            a, b = x.a[idx], x.b[idx]
            if a == 0:
                out[idx] = np.searchsorted(table, b, side=side) if n == 'searchsorted' else np.digitize(b, table, *rest, **kw)
                continue
            pts = (table - b) / a
            if a > 0:
                out[idx] = x.v[idx].split(pts)
            else:
                out[idx] = len(pts) - x.v[idx].split(pts[::-1])
        return out if x.shape else np.int64(out[()])


def make(ctl, size):
    if size is None:
        shape = ()
    else:
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
    v = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        v[idx] = Var(ctl)
    return LazyU(v, np.ones(shape), np.zeros(shape))
