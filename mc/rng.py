"""
Enumeration of the answers of the random number generator.

numpy's legacy generator is a Mersenne twister whose state is an array of words
which are tempered to give its answers. ``script`` puts words into the state
such that the generator gives chosen answers, whatever function of np.random
(or scipy.stats) asks for them; its position tells how many of them were
consumed. ``tree`` enumerates the tree of answers, each node of which is a value
on a grid of equally probable values.
"""
import numpy as np
from scipy import stats

from mc.core import HarnessError, Violation, check

N = 624


def _undo_right(y, shift):
    r = y
    for _ in range(32 // shift + 1):
        r = y ^ (r >> shift)
    return r & 0xFFFFFFFF


def _undo_left(y, shift, mask):
    r = y
    for _ in range(32 // shift + 1):
        r = y ^ ((r << shift) & mask)
    return r & 0xFFFFFFFF


def untemper(y):
    y = _undo_right(y, 18)
    y = _undo_left(y, 15, 0xEFC60000)
    y = _undo_left(y, 7, 0x9D2C5680)
    y = _undo_right(y, 11)
    return y


def _untemper_array(y):
    y = np.asarray(y, dtype=np.uint64)
    m = np.uint64(0xFFFFFFFF)

    def right(y, s):
        r = y
        for _ in range(32 // s + 1):
            r = y ^ (r >> np.uint64(s))
        return r & m

    def left(y, s, mask):
        r = y
        for _ in range(32 // s + 1):
            r = y ^ ((r << np.uint64(s)) & np.uint64(mask))
        return r & m

    y = right(y, 18)
    y = left(y, 15, 0xEFC60000)
    y = left(y, 7, 0x9D2C5680)
    y = right(y, 11)
    return y


def words_of(u):
    """The pair of words which gives the double u in [0, 1)"""
    k = (np.asarray(u, dtype=float) * 9007199254740992.0).astype(np.uint64)
    a = (k >> np.uint64(26)) << np.uint64(5)
    b = (k & np.uint64((1 << 26) - 1)) << np.uint64(6)
    out = np.empty(2 * len(k), dtype=np.uint64)
    out[0::2] = a
    out[1::2] = b
    return out


_template = np.random.RandomState(99).get_state()


def script(us):
    """Let the generator answer with the doubles us, in this order"""
    us = np.atleast_1d(np.asarray(us, dtype=float))
    if 2 * len(us) > N:
        raise HarnessError("at most %d answers can be scripted" % (N // 2))
    key = np.array(_template[1], dtype=np.uint64)
    w = _untemper_array(words_of(us))
    key[: len(w)] = w
    np.random.set_state(("MT19937", key.astype(np.uint32), 0, 0, 0.0))


def consumed():
    """The number of doubles which were asked for since ``script``"""
    pos = np.random.get_state()[2]
    return (pos + 1) // 2


def owned():
    """Whether np.random gives the scripted answers"""
    script([0.25, 0.75])
    a = np.random.uniform(size=2)
    return a[0] == 0.25 and a[1] == 0.75


assert owned()


class Result:
    def __init__(self):
        self.values = []
        self.weights = []
        self.leaves = 0
        self.cut = 0.0  # the probability of the answers that were cut off
        self.depth = 0

    def arrays(self):
        v = np.array(self.values, dtype=float)
        w = np.array(self.weights, dtype=float)
        o = np.argsort(v, kind="stable")
        return v[o], w[o]


def tree(sample, grid, max_depth, first=None):
    """
    Enumerate all answers on a grid of ``grid`` equally probable values per
    consumed double up to ``max_depth`` doubles. ``sample`` is run for every leaf
    """
    pts = (np.arange(grid) + 0.5) / grid
    res = Result()
    stack = [()]
    while stack:
        pre = stack.pop()
        # the tail is a fixed sequence: what is asked for beyond the prefix
        tail = max_depth + 1 - len(pre)
        script(list(pre) + [0.5] * min(64, max(tail, 1) + 8))
        v = sample()
        used = consumed()
        if used <= len(pre):
            res.values.append(v)
            res.weights.append(grid ** (-float(len(pre))) if len(pre) == used else grid ** (-float(len(pre))))
            res.leaves += 1
            res.depth = max(res.depth, used)
        elif len(pre) >= max_depth:
            res.cut += grid ** (-float(len(pre)))
        else:
            for p in pts[::-1]:
                stack.append(pre + (float(p),))
    return res


def enumerate_normal(sample, grid):
    """
    A sampler that needs a few answers: all of them on a grid. What is cut off
    (rejected answers beyond the second pair) is reported
    """
    return tree(sample, grid, 2)


def cdf_distance(res, cdf):
    """The largest distance of the enumerated distribution from a CDF"""
    v, w = res.arrays()
    W = np.cumsum(w) / np.sum(w)
    F = cdf(v)
    before = np.concatenate([[0.0], W[:-1]])
    return float(np.max(np.maximum(np.abs(F - W), np.abs(F - before))))


def check_normal(res, what, tol=None):
    d = cdf_distance(res, stats.norm.cdf)
    tol = 0.03 if tol is None else tol
    check(d < tol, "%s does not follow the normal distribution" % what, distance=d, tolerance=tol)
    return d


def check_independent(res, cdf1, cdf2, what, tol, **details):
    """
    The pairs of a result are independent and follow two distributions: the joint
    distribution function at all lattice points is the product
    """
    v = np.array(res.values, dtype=float)
    w = np.array(res.weights, dtype=float)
    w = w / w.sum()
    a, b = np.asarray(cdf1(v[:, 0]), float), np.asarray(cdf2(v[:, 1]), float)
    worst = 0.0
    at = None
    for s in np.linspace(0.1, 1.0, 10):
        for t in np.linspace(0.1, 1.0, 10):
            m = float(w[(a <= s + 1e-9) & (b <= t + 1e-9)].sum())
            if abs(m - s * t) > worst:
                worst, at = abs(m - s * t), (s, t)
    check(worst <= tol, "%s are not independent with the declared distributions" % what, distance=worst, tolerance=tol, at=at, **details)
    return worst


def check_crowd(columns, what, **details):
    """
    A single execution with many objects: each column of values (as probabilities,
    which are to be uniform), in total and in parts of its objects, is near its
    distribution, and no column depends on another one or on its predecessors.
    The tolerances are far (6 sigmas and more) beyond what statistics allow.
    """
    columns = [np.asarray(c, dtype=float) for c in columns]
    n = len(columns[0])

    def ks(u):
        u = np.sort(u)
        m = len(u)
        i = np.arange(m)
        return float(np.max(np.maximum(np.abs((i + 1) / m - u), np.abs(u - i / m))))

    for k, u in enumerate(columns):
        check(bool(((u >= 0) & (u <= 1)).all()), "harness: not probabilities")
        for part in [u] + np.array_split(u, 3) + [u[0::2], u[1::2]]:
            d, tol = ks(part), 3.6 / np.sqrt(len(part))
            check(d < tol, "many %s do not follow the declared distribution" % what, distance=d, tolerance=tol, objects=n, component=k, **details)
        for lag in (1, 2, n // 2):
            c = float(np.mean((u[lag:] - 0.5) * (u[:-lag] - 0.5)) * 12)
            tol = 7.0 / np.sqrt(n - lag)
            check(abs(c) < tol, "many %s are not independent of each other" % what, correlation=c, tolerance=tol, lag=lag, objects=n, component=k, **details)
    for i in range(len(columns)):
        for j in range(i):
            for f in (lambda u: u - 0.5, lambda u: np.abs(u - 0.5) - 0.25):
                for g in (lambda u: u - 0.5, lambda u: np.abs(u - 0.5) - 0.25):
                    a, b = f(columns[i]), g(columns[j])
                    c = float(np.mean(a * b) / np.sqrt(np.mean(a * a) * np.mean(b * b)))
                    check(abs(c) < 7.0 / np.sqrt(n), "many %s depend on each other" % what, correlation=c, components=(i, j), objects=n, **details)
