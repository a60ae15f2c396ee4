"""Reference driver for the EM loops: the real simulator driven by an independent loop.

The user's model is a finite-state model whose tables depend on the parameter; its `maximize`
returns any element of a finite parameter alphabet (an explored choice), so the histories of an
estimation run form a finite tree.  The library's driver and the reference driver are executed on
the same choice sequence and their observable traces are compared.
"""
import numpy as np
from lib import seam, hmm, smooth

U = [10.0, 0.0, 11.0, 14.0]
Y = [20.0, 0.0, 25.0, 21.0, 23.0]


class EMModel(object):
    """Delegates to the finite-state model of the current parameter."""

    def __init__(self, T, mf, alphabet, events, reuse=False):
        self.events = events
        self.rec = []
        self.alphabet = alphabet
        self.cur = None
        self.pars = None
        self.reuse = reuse
        self.buf = np.zeros(2)
        self.count = 0
        self.models = {}
        for v in set(alphabet) | set([0]):
            spec = hmm.Spec(S=2, T=T, variant=v, y0=mf, u=U[:T], y=Y[:T])
            self.models[v] = hmm.make_model(spec, self.rec)

    def set_params(self, params):
        self.pars = tuple(float(x) for x in np.asarray(params, dtype=float).ravel())
        self.events.append(('set', self.pars))
        self.cur = self.models[int(round(float(np.asarray(params).ravel()[0])))]

    def __getattr__(self, name):
        if name.startswith('__') or name == 'cur':
            raise AttributeError(name)
        a = getattr(self.__dict__['cur'] or self.models[0], name)
        e = ('call', self.pars)
        if self.events[-1:] != [e]:
            self.events.append(e)
        return a

    def _new(self):
        a = self.alphabet
        v = a[seam.pick([1.0 / len(a)] * len(a))]
        self.count += 1
        # parameters of two iterations may be very close, never the same
        q = 0.25 + v + 1e-9 * self.count
        if self.reuse:
            self.buf[:] = (v, q)
            return self.buf
        return np.asarray([v, q])

    def maximize(self, straj):
        self.events.append(('max', straj_key(straj)))
        return self._new()

    def maximize_weighted(self, straj, alltrajs, weights):
        self.events.append(('maxw', straj_key(straj), archive_key(alltrajs, weights)))
        return self._new()


def straj_key(straj):
    return tuple(tuple(map(tuple, np.asarray(s.pa.part).tolist())) for s in straj.traj)


def pt_key(pt):
    return tuple((tuple(map(tuple, np.asarray(s.pa.part).tolist())),
                  tuple(np.round(hmm.nw(s.pa.w), 10).tolist()), tuple(int(a) for a in s.ancestors)) for s in pt.traj)


def archive_key(alltrajs, weights):
    """Sorted list of (weight, trajectory of states)."""
    A = np.asarray(alltrajs, dtype=float)
    w = np.asarray(weights, dtype=float)
    if A.ndim != 3 or w.ndim != 1 or A.shape[1] != len(w):
        return ('bad', A.shape, w.shape)
    return [(tuple(map(tuple, A[:, j].tolist())), float(w[j])) for j in range(len(w))]


def sched(x, i):
    if np.isscalar(x):
        return x
    return x[i] if i < len(x) else x[-1]


def driver(cls, model, T, mf, events):
    """An instance of the library's class that logs every simulation it runs."""
    u = U[:T - 1]
    y = Y[:T] if mf else Y[1:T]
    return cls(model, u, y)
