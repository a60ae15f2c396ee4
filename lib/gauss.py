"""Exact Gaussian reference: random vectors as affine maps of independent standard normals.

Everything the Kalman-type code computes recursively is obtained here in one batch from the joint
covariance matrix (no recursion, no shared code with the library).
"""
import math
import itertools
import numpy as np
from lib import seam

NB = 192


class Var(object):
    def __init__(self, mean, coef):
        self.mean = np.asarray(mean, dtype=float).reshape(-1)
        self.coef = coef
        assert coef.shape[0] == len(self.mean)

    def lin(self, A):
        A = np.asarray(A, dtype=float)
        return Var(A.dot(self.mean), A.dot(self.coef))

    def __add__(self, o):
        if isinstance(o, Var):
            return Var(self.mean + o.mean, self.coef + o.coef)
        return Var(self.mean + np.asarray(o, dtype=float).reshape(-1), self.coef)

    def part(self, sl):
        return Var(self.mean[sl], self.coef[sl])


def stack(vs):
    return Var(np.concatenate([v.mean for v in vs]), np.concatenate([v.coef for v in vs]))


class Space(object):
    def __init__(self):
        self.used = 0

    def new(self, mean, cov):
        cov = np.atleast_2d(np.asarray(cov, dtype=float))
        n = cov.shape[0]
        L = seam.sqrtm_psd(cov)
        c = np.zeros((n, NB))
        c[:, self.used:self.used + n] = L
        self.used += n
        assert self.used <= NB
        return Var(np.asarray(mean, dtype=float).reshape(-1), c)

    def const(self, v):
        v = np.asarray(v, dtype=float).reshape(-1)
        return Var(v, np.zeros((len(v), NB)))


def cov(a, b=None):
    b = a if b is None else b
    return a.coef.dot(b.coef.T)


def condition(target, obs):
    """Mean and covariance of `target` given [(Var, value)]; obs covariance may be singular."""
    if not obs:
        return target.mean.copy(), cov(target)
    o = stack([v for v, _ in obs])
    val = np.concatenate([np.asarray(x, dtype=float).reshape(-1) for _, x in obs])
    S = cov(o)
    K = np.linalg.pinv(S, rcond=1e-12, hermitian=True)
    C = cov(target, o)
    return target.mean + C.dot(K).dot(val - o.mean), cov(target) - C.dot(K).dot(C.T)


def residual_var(target, obs):
    """`target` given the observations, as a Var (conditional mean + conditional noise)."""
    m, P = condition(target, obs)
    return m, P


def logpdf(diff, S):
    diff = np.asarray(diff, dtype=float).reshape(-1)
    S = np.atleast_2d(np.asarray(S, dtype=float))
    s, ld = np.linalg.slogdet(S)
    assert s > 0
    return -0.5 * (len(diff) * math.log(2 * math.pi) + ld + diff.dot(np.linalg.solve(S, diff)))


def logcond(var, value, obs):
    """log p(var = value | obs)."""
    m, S = condition(var, obs)
    return logpdf(np.asarray(value, dtype=float).reshape(-1) - m, S)


def close(a, b, tol=1e-8):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.size != b.size:
        return False
    a = a.reshape(b.shape)
    sc = max(1.0, np.max(np.abs(b)) if b.size and np.all(np.isfinite(b)) else 1.0)
    with np.errstate(invalid='ignore'):
        return bool(np.all((np.abs(a - b) <= tol * sc) | (a == b)))


def moments(dist):
    """[(prob, vector)] -> mean, covariance."""
    tot = sum(p for p, _ in dist)
    m = sum(p * v for p, v in dist) / tot
    C = sum(p * np.outer(v - m, v - m) for p, v in dist) / tot
    return m, C


# small alphabets of positive definite matrices, per dimension
SPD = {
    1: [np.asarray([[1.0]]), np.asarray([[0.3]]), np.asarray([[4.0]])],
    2: [np.asarray([[1.0, 0.0], [0.0, 2.0]]), np.asarray([[2.0, 0.7], [0.7, 0.5]]), np.asarray([[0.4, -0.3], [-0.3, 1.5]])],
    3: [np.asarray([[1.0, 0.2, 0.0], [0.2, 2.0, -0.5], [0.0, -0.5, 0.7]]), np.asarray([[2.0, 0.7, 0.3], [0.7, 1.5, 0.1], [0.3, 0.1, 0.5]]),
        np.asarray([[0.6, -0.3, 0.2], [-0.3, 1.5, 0.4], [0.2, 0.4, 0.9]])],
}


for _d in (4, 5, 6):
    SPD[_d] = []
    for _k in range(3):
        _i = np.arange(_d).reshape(-1, 1)
        _B = np.sin(1.0 + 1.7 * _i + 2.3 * np.arange(_d) + 0.9 * _k) / _d ** 0.5
        SPD[_d].append(_B.dot(_B.T) + np.diag(0.4 + 0.2 * ((np.arange(_d) + _k) % 3)))


def spd(d, k):
    """k-th matrix of the alphabet; scaled so that no two k up to 12 agree."""
    return SPD[d][k % 3] * (1.0 + 0.25 * (k // 3))


def mat(r, c, k):
    """Deterministic generic matrix."""
    i = np.arange(r).reshape(-1, 1)
    j = np.arange(c).reshape(1, -1)
    m = 0.9 * np.sin(1.3 + 2.1 * i + 3.7 * j + 1.9 * k) + 0.3 * np.cos(0.4 * k + i * 1.1)
    return m + 0.6 * np.eye(r) if r == c and r > 1 else m


def vec(n, k):
    return mat(n, 1, k + 17).reshape(-1)


def yvec(n, t, k=0):
    """A measurement; the one at time 1 is zero (a value, not a missing measurement)."""
    return np.zeros(n) if t == 1 else vec(n, 3 * t + k) * 1.5


def grid(d, vals):
    return [np.asarray(x, dtype=float) for x in itertools.product(vals, repeat=d)]
