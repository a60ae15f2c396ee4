"""How an explored random number that the code looks at in an arbitrary way is enumerated.

When a number of the explorer leaves the symbolic representation (lib/lazyu.py), for example through
float(u) or an element assignment, its interval is cut into the pieces on which the rest of the execution
is the same: the body is run again with forced values of the number (a grid, then bisection between
neighbours that differ) and fixed decisions for everything after it, and what is compared is the sequence
of later choices (options and probabilities), the result, and what the calling code of the library does
with the number (lines executed, whole numbers and truth values it holds and returns).  Every piece becomes one choice with exactly
its length as probability.  Numbers that enter the result continuously have no such pieces: the caller
falls back to fixed cells.
"""
import hashlib
import os
import sys

import numpy as np
from lib import lazyu

GRID = 8
MAXPIECES = 40
BUDGET = 60000        # forced executions per exploration
WIDTH = 1e-12


KNOWN = {}           # fingerprint of the calling code -> [pieces, interval, successful verifications]
USED = 0             # discoveries in this task (lib/runner.py)


class Exhausted(TimeoutError):
    """Too expensive: the task ends with what it has covered so far (lib/runner.py)."""


class Discover(BaseException):
    """Raised at a number without known pieces."""

    def __init__(self, key, lo, hi, finger):
        BaseException.__init__(self, 'pieces of a random number')
        self.key, self.lo, self.hi, self.finger = key, lo, hi, finger


class Book(object):
    """What one exploration knows about such numbers."""

    def __init__(self):
        self.nodes = {}      # (choice indices, how many numbers without choice before) -> pieces (None: fixed cells)
        self.pool = []       # cuts found so far, tried first elsewhere
        self.evals = 0
        self.failed = 0


def _digest(h, o, depth=0, seen=None):
    if seen is None:
        seen = {}
    if isinstance(o, lazyu.LazyU):
        h.update(b'lazy')
        return
    if isinstance(o, np.generic):
        o = o.item()
    if o is None or isinstance(o, (bool, int, str, bytes)):
        h.update(repr(o).encode())
        return
    if isinstance(o, (float, np.floating, complex)):
        h.update(('%.9g' % o if not isinstance(o, complex) else repr(o)).encode())
        return
    if isinstance(o, np.ndarray) and o.dtype != object:
        h.update(repr(o.shape).encode())
        if o.dtype.kind == 'f':
            with np.errstate(all='ignore'):
                o = np.array([float('%.9g' % x) for x in o.reshape(-1)])
        h.update(np.ascontiguousarray(o).tobytes())
        return
    if depth > 12 or id(o) in seen:
        h.update(b'...')
        return
    seen[id(o)] = o
    if isinstance(o, np.ndarray):
        o = list(o.reshape(-1))
    if isinstance(o, dict):
        for k in o:
            _digest(h, k, depth + 1, seen)
            _digest(h, o[k], depth + 1, seen)
    elif isinstance(o, (list, tuple)):
        h.update(b'%d' % len(o))
        for x in o:
            _digest(h, x, depth + 1, seen)
    elif isinstance(o, (set, frozenset)):
        for x in sorted(map(repr, o)):
            h.update(x.encode())
    elif hasattr(o, '__dict__') and not callable(o) and not isinstance(o, type):
        h.update(type(o).__name__.encode())
        for k in sorted(o.__dict__):
            _digest(h, o.__dict__[k], depth + 1, seen)
    else:
        h.update(type(o).__name__.encode())


def _discrete(h, o, depth=0, arrays='biu'):
    """Digest of the whole numbers and truth values in o."""
    if isinstance(o, np.generic):
        o = o.item()
    if isinstance(o, (bool, int)):
        h.update(repr(o).encode())
    elif isinstance(o, np.ndarray):
        if o.dtype.kind in arrays:
            h.update(repr(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)) and depth < 2 and len(o) < 50:
        for x in o:
            _discrete(h, x, depth + 1, arrays)


class Watch(object):
    """Follows the library frames that are active when a number is made concrete."""

    def __init__(self):
        # everything at every line; without arrays of whole numbers, which may not be filled yet;
        # at the end of the function only; nothing
        self.h = [hashlib.md5() for _ in range(3)]

    def start(self):
        from lib import env
        root = env.REPO + os.sep
        f = sys._getframe(1)
        n = 0
        while f is not None and n < 2:
            if f.f_code.co_filename.startswith(root):
                f.f_trace = self.event
                f.f_trace_lines = True
                n += 1
            f = f.f_back
        if n:
            sys.settrace(_none)

    def event(self, frame, what, arg):
        loc = frame.f_locals
        for h, arrays in zip(self.h, ('biu', 'b', None)):
            h.update(b'%d' % frame.f_lineno)
            if what == 'return':
                arrays = 'biu'
                _discrete(h, arg)
            if arrays is not None:
                for k in sorted(loc):
                    _discrete(h, loc[k], 0, arrays)
        return self.event

    def stop(self):
        sys.settrace(None)
        return [h.digest() for h in self.h] + [b'']


def _none(*a):
    return None


def finger():
    """Digest of the local variables of the innermost frame of the code under test."""
    from lib import env
    f = sys._getframe(2)
    root = env.REPO + os.sep
    while f is not None and not f.f_code.co_filename.startswith(root):
        f = f.f_back
    if f is None:
        return None
    h = hashlib.md5()
    h.update(('%s:%d' % (f.f_code.co_name, f.f_lasti)).encode())
    for k in sorted(f.f_locals):
        v = f.f_locals[k]
        if isinstance(v, (int, float, np.ndarray, np.generic, list, tuple, str, bool)) or v is None:
            h.update(k.encode())
            _digest(h, v)
    return (f.f_code.co_name, f.f_lasti), h.hexdigest()


LEVEL = {}           # place in the code -> how much of what the caller does is compared


def signature(run, key, values, policy, level):
    """run(key, value, policy) -> (later choices, result, what the caller did)"""
    h = hashlib.md5()
    later, res, did = run(key, values, policy)
    h.update(did[level])
    for kind, probs in later:
        h.update(kind.encode())
        h.update(repr([float('%.7g' % p) for p in probs]).encode())
    _digest(h, res)
    return h.digest()


POLICIES = ('mixed', 'first')


def find(book, d, run):
    """Pieces [(lo, hi), ...] of [d.lo, d.hi], or None."""
    place = d.finger and d.finger[0]
    res = None
    if book.failed < 3 or d.finger in KNOWN:
        for level in range(LEVEL.get(place, 0), 4):
            res = _find(book, d, run, level)
            if res is not None:
                LEVEL[place] = level
                break
        else:
            book.failed += 1
    if d.finger is not None:
        if d.finger not in KNOWN or KNOWN[d.finger][0] is not res:
            KNOWN[d.finger] = [res, (d.lo, d.hi), 0]
    return res


def _find(book, d, run, level):
    lo, hi = d.lo, d.hi

    # what the caller does shows more than one continuation can
    pol = POLICIES[:1] if level < 2 else POLICIES

    def one(u, p):
        book.evals += 1
        if book.evals > BUDGET:
            raise Exhausted('pieces of random numbers: more than %d executions' % BUDGET)
        return signature(run, d.key, u, p, level)

    def sig(u):
        return tuple(one(u, p) for p in pol)

    if d.finger is not None and d.finger in KNOWN:
        ent = KNOWN[d.finger]
        if ent[0] is None:
            return None
        if ent[1] == (lo, hi):
            if ent[2] >= 3:
                return ent[0]
            ok = True
            for a, b in ent[0]:
                e = 1e-3 * (b - a)
                if one(a + e, 'mixed') != one(b - e, 'mixed'):
                    ok = False
                    break
            if ok:
                ent[2] += 1
                return ent[0]
    w = hi - lo
    # odd points: not at the usual breakpoints themselves
    pts = [lo + w * (k + 0.4873) / GRID for k in range(GRID)]
    pts = [lo + w * 1e-9] + pts + [hi - w * 1e-9]
    sg = [sig(p) for p in pts]
    cuts = []

    def refine(a, sa, b, sb):
        """Cuts between two points with their signatures; False: too many."""
        if sa == sb:
            return True
        if b - a < 2.5 * WIDTH:
            cuts.append(0.5 * (a + b))
            return len(cuts) < MAXPIECES
        if len(cuts) >= MAXPIECES:
            return False
        if b - a > 1e-9:
            for c in book.pool:
                if a + 1e-10 < c < b - 1e-10:
                    x, y = c - WIDTH, c + WIDTH
                    sx, sy = sig(x), sig(y)
                    if sx != sy:
                        return refine(a, sa, x, sx) and refine(x, sx, y, sy) and refine(y, sy, b, sb)
        k = [i for i in range(len(pol)) if sa[i] != sb[i]][0]
        x, y = a, b
        while y - x >= 2.5 * WIDTH:
            m = 0.5 * (x + y)
            sm = one(m, pol[k])
            if sm == sa[k]:
                x = m
            elif sm == sb[k]:
                y = m
            else:
                if y - x < w * 1e-5:
                    return False        # no pieces: the number itself shows
                full = sig(m)
                return refine(a, sa, m, full) and refine(m, full, b, sb)
        sx, sy = sig(x), sig(y)
        return refine(a, sa, x, sx) and refine(x, sx, y, sy) and refine(y, sy, b, sb)
    ok = True
    for i in range(len(pts) - 1):
        if not refine(pts[i], sg[i], pts[i + 1], sg[i + 1]):
            ok = False
            break
    if not ok:
        return None
    for c in cuts:
        if len(book.pool) < 12 and all(abs(c - x) > 1e-9 for x in book.pool):
            book.pool.append(c)
    edges = [lo] + [c for c in cuts if lo + 1e-11 < c < hi - 1e-11] + [hi]
    return list(zip(edges[:-1], edges[1:]))
