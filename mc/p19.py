"""
P19: luminosities follow the declared luminosity function.

For a lattice of parameters of every luminosity distribution: the density on a
lattice of luminosities (in, at and out of the bounds, as scalars and arrays of
different kinds), its integral over every cell of a partition of the support, and
the distribution of the drawn luminosities over the tree of all answers of the
random number generator on a grid, for one object and for two.
"""
import itertools

import numpy as np
import scipy.special as sf
from scipy import stats

from mc.core import check
from mc import world as w
from mc import rng

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the answers of the random number generator on a grid, on the implementation, for a lattice of parameters"
BOUNDS = {
    "quick": "70 parameter sets of 7 distributions; 60 luminosities and 40 cells each; trees of 1 object with 512 answers per uniform number (64 if two are needed), of 2 objects with 16; executions with 150, 1100 and 3000 objects",
    "thorough": "the same with 2048 (160), and 24 answers per number",
}
ASSUMPTIONS = [
    "the answers of the random number generator are equally probable on the grid; the distance of the enumerated from the declared distribution is bounded by the grid's resolution",
    "parameters are valid: positive scales and slopes that can be normalized, ordered bounds",
]
CHUNK = 1


class Declared:
    """The distribution in closed form"""

    def __init__(self, name, p):
        self.name, self.p = name, p
        f = getattr(self, name)
        self.lower, self.upper, self.cdf, self.ppf, self.pdf = f(**p)

    def pareto(self, Lmin, alpha):
        cdf = lambda x: np.where(x < Lmin, 0.0, 1 - (Lmin / np.maximum(x, Lmin)) ** alpha)
        return Lmin, np.inf, cdf, lambda q: Lmin * (1 - q) ** (-1 / alpha), lambda x: alpha / x * (Lmin / x) ** alpha

    def schechter(self, Lmin, alpha):
        g = stats.gamma(1 + alpha, scale=Lmin)
        return 0.0, np.inf, g.cdf, g.ppf, g.pdf

    def lognorm(self, mu, tau):
        g = stats.norm(mu, tau)
        cdf = lambda x: np.where(x <= 0, 0.0, g.cdf(np.log(np.where(x > 0, x, 1.0))))
        return 0.0, np.inf, cdf, lambda q: np.exp(g.ppf(q)), lambda x: g.pdf(np.log(x)) / x

    def log10norm(self, mu, tau):
        g = stats.norm(mu, tau)
        cdf = lambda x: np.where(x <= 0, 0.0, g.cdf(np.log10(np.where(x > 0, x, 1.0))))
        return 0.0, np.inf, cdf, lambda q: 10 ** g.ppf(q), lambda x: g.pdf(np.log10(x)) / x / np.log(10)

    def loguni(self, Lmin, Lmax):
        n = np.log(Lmax / Lmin)
        cdf = lambda x: np.clip(np.log(np.maximum(x, Lmin) / Lmin) / n, 0, 1)
        return Lmin, Lmax, cdf, lambda q: Lmin * np.exp(q * n), lambda x: 1 / (x * n)

    def bpl(self, Lmin, alpha, Lbreak, beta, Lmax):
        def piece(a, b, s):
            return np.log(b / a) if s == -1 else (b ** (s + 1.0) - a ** (s + 1.0)) / (s + 1.0)

        c = float(Lbreak) ** (alpha - beta)
        i1, i2 = piece(Lmin, Lbreak, alpha), c * piece(Lbreak, Lmax, beta)
        t = i1 + i2

        def cdf(x):
            x = np.clip(np.asarray(x, float), Lmin, Lmax)
            low = piece(Lmin, np.minimum(x, Lbreak), alpha)
            up = c * piece(Lbreak, np.maximum(x, Lbreak), beta)
            return (low + up) / t

        def ppf(q):
            lo, hi = np.full(np.shape(q), float(Lmin)), np.full(np.shape(q), float(Lmax))
            for _ in range(200):
                m = 0.5 * (lo + hi)
                below = cdf(m) < q
                lo, hi = np.where(below, m, lo), np.where(below, hi, m)
            return 0.5 * (lo + hi)

        def pdf(x):
            x = np.asarray(x, float)
            return np.where(x < Lbreak, x**alpha, c * x**beta) / t

        return Lmin, Lmax, cdf, ppf, pdf

    def delta(self, Lp):
        return Lp, Lp, lambda x: (np.asarray(x) >= Lp).astype(float), lambda q: np.full(np.shape(q), float(Lp)), None


def parameters():
    for Lmin in (0.25, 1, 3.0):
        for alpha in (0.5, 1, 1.5, 2.5, 4):
            yield "pareto", dict(Lmin=Lmin, alpha=alpha)
    for Lmin in (0.5, 1, 4.0):
        for alpha in (-0.5, 0, 0.5, 1, 2.5):
            yield "schechter", dict(Lmin=Lmin, alpha=alpha)
    for mu in (-1.5, 0, 2.0):
        for tau in (0.2, 1, 2.5):
            yield "lognorm", dict(mu=mu, tau=tau)
            yield "log10norm", dict(mu=mu, tau=tau / 2)
    for Lmin, Lmax in ((1, 10), (0.5, 0.75), (2, 2e4), (1e-3, 50.0)):
        yield "loguni", dict(Lmin=Lmin, Lmax=Lmax)
    for alpha, beta in itertools.product((-2.5, -1, -0.5, 0, 1.5), (-3.0, -1, 0.5)):
        yield "bpl", dict(Lmin=1, alpha=alpha, Lbreak=4, beta=beta, Lmax=30)
    yield "bpl", dict(Lmin=0.5, alpha=-0.5, Lbreak=0.75, beta=-2, Lmax=20.0)
    yield "bpl", dict(Lmin=0.01, alpha=-1.0, Lbreak=10.0, beta=-1.0, Lmax=20.0)
    yield "bpl", dict(Lmin=2, alpha=1, Lbreak=9.5, beta=-4, Lmax=10)
    for Lp in (0, 1, 2.5, 1e-3, 3e52, 1e-9, 2e-30):
        yield "delta", dict(Lp=Lp)
    # luminosities as they are in the sky, heavy tails, slopes close to special ones
    for Lmin, alpha in ((1e51, 1.5), (3e47, 1), (1.0, 0.05), (2, 0.15), (1e-10, 12.0), (1.0, 40), (5e52, 3)):
        yield "pareto", dict(Lmin=Lmin, alpha=alpha)
    for Lmin, alpha in ((1e51, 0.5), (1e53, 1), (2.0, -0.97), (1, -0.8), (1.0, 20), (1e-8, 3), (1e50, 2.2)):
        yield "schechter", dict(Lmin=Lmin, alpha=alpha)
    for Lmin, alpha in ((1.23457, 1.61803), (0.333333, 2.71828)):
        yield "pareto", dict(Lmin=Lmin, alpha=alpha)
    for Lmin, alpha in ((1.23457, -0.61803), (0.333333, 1.33337)):
        yield "schechter", dict(Lmin=Lmin, alpha=alpha)
    yield "bpl", dict(Lmin=1.11111, alpha=-0.61803, Lbreak=4.44444, beta=-2.71828, Lmax=33.3333)
    yield "loguni", dict(Lmin=1.11111, Lmax=33.3333)
    yield "lognorm", dict(mu=-75.4321, tau=0.654321)
    for mu, tau in ((118.0, 1.5), (120, 3), (-20.0, 0.3), (0, 6.0), (3.0, 0.01)):
        yield "lognorm", dict(mu=mu, tau=tau)
    for mu, tau in ((51.0, 1.0), (52, 2), (-9.0, 0.2), (0, 4.0), (1.0, 0.005)):
        yield "log10norm", dict(mu=mu, tau=tau)
    for Lmin, Lmax in ((1e49, 1e54), (1e-12, 1e12), (5, 5.01), (1e51, 3e51)):
        yield "loguni", dict(Lmin=Lmin, Lmax=Lmax)
    for alpha, beta in ((-1.5, -3.0), (-1, -2), (-0.5, -2.5), (-1.2, -1.4)):
        yield "bpl", dict(Lmin=1e47, alpha=alpha, Lbreak=1e51, beta=beta, Lmax=1e54)
    for alpha, beta in ((-0.99, -3), (-1.01, -1.02), (-3, -2), (-0.9, -1.1), (2, -5), (0, 0), (-0.999, 1.0), (3, 2)):
        yield "bpl", dict(Lmin=1, alpha=alpha, Lbreak=4, beta=beta, Lmax=30)
    yield "bpl", dict(Lmin=1, alpha=-2, Lbreak=1000, beta=-4, Lmax=100000)
    yield "bpl", dict(Lmin=1e-5, alpha=0.3, Lbreak=1e-3, beta=-1.7, Lmax=1e4)


def make(name, p):
    return w.make(w.LUM[name][0], p)


def cases(tier):
    for name, p in parameters():
        yield dict(kind="density", name=name, p=p)
    one, two, joint = (512, 64, 16) if tier == "quick" else (2048, 160, 24)
    for name, p in parameters():
        yield dict(kind="draws", name=name, p=p, grid=two if name in ("lognorm", "log10norm", "bpl") else one, depth=2)
        yield dict(kind="two", name=name, p=p, grid=joint if name != "bpl" else joint // 2)
        yield dict(kind="many", name=name, p=p)
        yield dict(kind="crowd", name=name, p=p, n=3000 if tier == "quick" else 60000)


def run(case, cov):
    globals()[case["kind"]](case, cov)
    cov.state((case["kind"], case["name"], sorted(case["p"].items())))


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(b), 1e-300)


def one_value(x):
    x = np.asarray(x, dtype=float)
    check(x.size == 1, "the density of one luminosity is not one number", got=x)
    return float(x.ravel()[0])


def density(case, cov):
    name, p = case["name"], case["p"]
    d, D = make(name, p), Declared(name, p)
    if name == "delta":
        Lp = float(p["Lp"])
        xs = [Lp, 0.0 if Lp else 1.0, 2 * Lp + 1, np.nextafter(Lp, np.inf), 7.25, 3 * Lp or 4.0, Lp / 3 or 5.0]
        expected = [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]
    else:
        q = np.concatenate([[1e-6, 1e-3], np.linspace(0.02, 0.98, 49), [0.999, 1 - 1e-6]])
        xs = [float(x) for x in D.ppf(q)]
        expected = [float(D.pdf(x)) for x in xs]
        if D.lower > 0:
            xs += [D.lower, D.lower * 0.999, D.lower / 10, np.nextafter(float(D.lower), 0)]
            expected += [float(D.pdf(D.lower)), 0.0, 0.0, 0.0]
        if D.upper < np.inf:
            xs += [D.upper, D.upper * 1.001, D.upper * 100, np.nextafter(float(D.upper), np.inf)]
            expected += [float(D.pdf(D.upper)), 0.0, 0.0, 0.0]
        xs += [-1.0, -0.3, -5.0]
        expected += [0.0, 0.0, 0.0]
        for k in (1, 2, 5):
            xs.append(float(k))
            expected.append(float(D.pdf(k)) if D.lower <= k <= D.upper else 0.0)
    for x, e in zip(xs, expected):
        got = one_value(d.phi(x))
        cov.step()
        check(got >= 0 and near(got, e, 1e-7), "the density of a luminosity is not the declared one", luminosity=x, got=got, expected=e, parameters=p)
        got = one_value(d.phi(np.array([x])))
        check(near(got, e, 1e-7), "the density of an array of one luminosity is not the declared one", luminosity=x, got=got, expected=e, parameters=p)
        if float(x).is_integer() and abs(x) < 1e15:
            for t in (np.array([x], dtype=int), int(x), np.float64(x)):
                got = one_value(d.phi(t))
                check(near(got, e, 1e-7), "the density of an integer luminosity is not the declared one", luminosity=t, got=got, expected=e, parameters=p)
    # each entry on its own, whatever surrounds it
    for order in (np.arange(len(xs)), np.arange(len(xs))[::-1], np.argsort(xs), np.arange(len(xs))[1::2], np.array([0, 0, -1])):
        a = np.array(xs)[order]
        keep = a.copy()
        got = np.asarray(d.phi(a))
        check(got.shape == a.shape, "the density of an array has another shape", got=got.shape, expected=a.shape)
        check(bool((a == keep).all()), "evaluating the density changes the luminosities")
        for g, i in zip(got, order):
            check(near(g, expected[i], 1e-7), "the density of an entry of an array is not its own", luminosity=xs[i], got=g, expected=expected[i], parameters=p)
        cov.step(len(a))
    check(np.asarray(d.phi(np.array([]))).shape == (0,), "the density of no luminosities is not empty")
    if name == "delta":
        return
    # integrals over the cells of a partition of the support
    nodes, weights = np.polynomial.legendre.leggauss(24)
    edges = np.unique(np.concatenate([D.ppf(np.concatenate([[1e-9, 1e-4], np.linspace(0.02, 0.98, 37), [0.9999]])), [p["Lbreak"]] if name == "bpl" else []]))
    total = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        l0, l1 = np.log(a), np.log(b)
        x = np.exp(0.5 * (l1 - l0) * nodes + 0.5 * (l1 + l0))
        v = float(np.sum(weights * np.asarray(d.phi(x)) * x) * 0.5 * (l1 - l0))
        e = float(D.cdf(b) - D.cdf(a))
        cov.step()
        check(abs(v - e) < 1e-4 * e + 1e-9, "the density does not integrate to the probability of a range", range=(a, b), got=v, expected=e, parameters=p)
        total += v
    check(abs(total - 1) < 5e-4, "the density does not integrate to one", got=total, parameters=p)
    cov.outcome((name, sorted(p.items()), round(total, 3)))


def drawn(d, n):
    x = np.asarray(d.draw_luminosity(n))
    check(x.shape == (n,), "not as many luminosities were drawn as asked for", got=x.shape, expected=n)
    return x.astype(float)


def in_support(D, x, p):
    tol = 1e-12
    check(bool(((x >= D.lower * (1 - tol)) & (x <= D.upper * (1 + tol)) & (x >= 0) & np.isfinite(x)).all()), "a luminosity was drawn out of the support", got=x, support=(D.lower, D.upper), parameters=p)


def draws(case, cov):
    name, p = case["name"], case["p"]
    d, D = make(name, p), Declared(name, p)

    def sample():
        x = drawn(d, 1)
        in_support(D, x, p)
        return float(x[0])

    res = rng.tree(sample, case["grid"], case["depth"])
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    if name == "delta":
        check(set(res.values) == {float(p["Lp"])}, "another luminosity than that of the point mass was drawn", got=sorted(set(res.values))[:5])
        return
    check(res.cut < 0.3, "harness: too much was cut off", cut=res.cut)
    dist = rng.cdf_distance(res, D.cdf)
    tol = 1.1 / case["grid"]
    check(dist < tol, "drawn luminosities do not follow the declared distribution", distance=dist, tolerance=tol, parameters=p)
    cov.outcome((name, sorted(p.items()), res.leaves, round(dist, 4)))


def two(case, cov):
    """Two objects are independent"""
    name, p = case["name"], case["p"]
    if name == "delta":
        return
    d, D = make(name, p), Declared(name, p)

    def sample():
        x = drawn(d, 2)
        in_support(D, x, p)
        return tuple(x)

    res = rng.tree(sample, case["grid"], 4 if name == "bpl" else 2)
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    rng.check_independent(res, D.cdf, D.cdf, "the luminosities of two objects", 1.4 / case["grid"], parameters=p)
    cov.outcome((name, sorted(p.items()), "two", res.leaves))


def many(case, cov):
    name, p = case["name"], case["p"]
    d, D = make(name, p), Declared(name, p)
    for n in (0, 1, 2, 3, 5, 8, 64):
        for shift in range(3):
            rng.script((np.arange(300) * 0.6180339887 + 0.1 + 0.31 * shift) % 1.0)
            x = drawn(d, n)
            in_support(D, x, p)
            check(name == "delta" or len(set(x.tolist())) == n, "different objects have the same luminosity", got=x, parameters=p)
            cov.step()


def crowd(case, cov):
    name, p = case["name"], case["p"]
    d, D = make(name, p), Declared(name, p)
    for n in (150, 1100, case["n"]):
        np.random.seed(n)
        x = drawn(d, n)
        in_support(D, x, p)
        cov.step()
        if name == "delta":
            check(bool((x == p["Lp"]).all()), "another luminosity than that of the point mass was drawn", got=sorted(set(x.tolist()))[:5])
        else:
            check(len(set(x.tolist())) > 0.99 * n, "different objects have the same luminosity", objects=n, parameters=p)
            rng.check_crowd([np.clip(D.cdf(x), 0, 1)], "luminosities", parameters=p)
        # densities of many
        if name != "delta":
            got = np.asarray(d.phi(x))
            check(bool(np.allclose(got, D.pdf(x), rtol=1e-7)), "the densities of many luminosities are not the declared ones", parameters=p, objects=n)
