"""C27: density of the sum of two uniform variables, on a complete grid of intervals and points."""
import itertools
from fractions import Fraction
import numpy as np
from lib.env import THOROUGH

CONFS = ('pure',)
TOL = 1e-12


def density(a, b, p):
    """Exact convolution: length of the overlap of [a] with p - [b], over the product of widths."""
    a1, a2 = min(a), max(a)
    b1, b2 = min(b), max(b)
    lo, hi = max(a1, p - b2), min(a2, p - b1)
    return max(Fraction(0), hi - lo) / ((a2 - a1) * (b2 - b1))


FORMS = [('tuple', lambda v: tuple(float(x) for x in v)), ('list', lambda v: [float(x) for x in v]),
         ('array', lambda v: np.asarray([float(x) for x in v])), ('intarray', lambda v: np.asarray([int(x) for x in v])),
         ('int', lambda v: [int(x) for x in v])]


def f_grid(r, a, form, den, hi, scale='1', shift=0):
    """One first interval; every second interval and every point of the grid."""
    from pyparticleest.utils.pdf import unifsum
    conv = dict(FORMS)[form]
    scale = Fraction(scale)
    pts = [Fraction(k, den) for k in range(0, hi * den + 1)]
    fa = [Fraction(x, den) * scale + shift for x in a]
    for b in itertools.permutations(pts, 2):
        fb = [x * scale + shift for x in b]
        if form in ('int', 'intarray') and any(x.denominator != 1 for x in fa + fb):
            continue
        f = unifsum(conv(fa), conv(fb))
        lo, up = min(fa) + min(fb), max(fa) + max(fb)
        brk = sorted(set([x + y for x in fa for y in fb]))
        step = Fraction(scale, 4 * den)
        qs = set(brk)
        q = lo - 3 * step
        while q <= up + 3 * step:
            qs.add(q)
            q += step
        qs |= set([lo - 10 * scale, up + 10 * scale])
        qs = sorted(qs)
        vals = {}
        for q in qs:
            # a call must not depend on earlier calls: also evaluate in the opposite order below
            v = float(f(float(q)))
            vals[q] = v
            w = float(density(fa, fb, q))
            r.executions += 1
            tol = TOL * max(1.0, w) * (1 if abs(shift) <= 100 else 1e3)
            if not abs(v - w) <= tol:
                return r.fail('value', 'density at %s of U%s + U%s is %r instead of %r' % (q, conv(fa), conv(fb), v, w), a=list(map(str, fa)), b=list(map(str, fb)))
            if v < 0:
                return r.fail('negative', 'negative density %r' % v)
        for q in reversed(qs):
            if float(f(float(q))) != vals[q]:
                return r.fail('history', 'value at %s depends on earlier evaluations' % q)
            r.executions += 1
        # piecewise linear with these breakpoints: the trapezoid rule is exact
        tot = sum(0.5 * (vals[x] + vals[y]) * float(y - x) for x, y in zip(brk[:-1], brk[1:]))
        if not abs(tot - 1.0) <= 1e-9:
            return r.fail('integral', 'density integrates to %r' % tot, a=list(map(str, fa)), b=list(map(str, fb)))
        r.states += 1
        r.transitions += len(qs)
    r.outcome('%s %s' % (a, form))
    r.sample(first=list(map(str, fa)), form=form, den=den)


def tasks():
    out = []
    den, hi = (1, 6) if not THOROUGH else (2, 5)
    n = hi * den
    for form, _ in FORMS:
        for a in itertools.permutations(range(n + 1), 2):
            if form != 'tuple' and (a[0] + 2 * a[1]) % 4 and not THOROUGH:
                continue
            d = 1 if form in ('int', 'intarray') else den
            out.append(('f_grid', dict(a=a, form=form, den=d, hi=hi)))
    for a in itertools.permutations(range(7), 2):
        out.append(('f_grid', dict(a=a, form='tuple', den=2, hi=3)))
    for a in itertools.permutations(range(4), 2):
        out.append(('f_grid', dict(a=a, form='tuple', den=4, hi=1)))
        out.append(('f_grid', dict(a=a, form='list', den=1, hi=4, scale='1/1024', shift=-3)))
        out.append(('f_grid', dict(a=a, form='tuple', den=1, hi=4, scale='4096', shift=-65536)))
    return out
