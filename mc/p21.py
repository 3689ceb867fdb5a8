"""
P21: the number and the distances of objects follow the spatial distribution.

For a lattice of parameters of every spatial distribution, in all drawing modes
(progress bars x normalized drawing): the tree of all answers of the random number
generator (on a grid) for the number of objects of a survey and for the distances,
of one and two objects, of the distribution on its own and in surveys. Oracle: the
integrals of the declared density over the independently computed volume.
"""
import itertools

import numpy as np
from scipy import stats

from mc.core import check
from mc import world as w
from mc import rng
from mc import space

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the answers of the random number generator on a grid, on the implementation, for a lattice of parameters"
BOUNDS = {
    "quick": "57 parameter sets of 7 spatial distributions x two of the four modes (progress bars x normalized drawing); trees of 40^2 answers for the distance of 1 object, 7^4 for 2; all 40 x 150 pairs of answers for 11 sets with narrow peaks; numbers of objects for 10 expected numbers (0.004 to 3e6): trees of 1024 answers, 32^2, and 9^3; 6 numbers asked for; executions with 250, 1100 and 3000 objects",
    "thorough": "all modes of all sets with 96^2, 10^4; 100 x 500 pairs; 4096, 96^2, 24^3 answers",
}
ASSUMPTIONS = [
    "the answers of the random number generator are equally probable on the grid; the distance of the enumerated from the declared distribution is bounded by the grid's resolution; rejected answers beyond the first are cut off (they are followed by the same loop)",
    "the density has a single peak, which quadrature and a search on a grid of r_max / 500, refined around its best point, do find",
    "the cosmological volume is approximated to 2% (see P22 for its accuracy)",
]
CHUNK = 1

P = w.popsynth
SEED = np.random.seed


def no_seed(*args, **kwargs):
    """Keep the enumerated answers"""


class Stop(Exception):
    pass


def parameters():
    for Lambda, r_max in itertools.product((0.1, 1, 3.0), (0.5, 2, 10.0)):
        yield "ConstantSphericalDistribution", dict(Lambda=Lambda, r_max=r_max), {}
    for delta, r_max in itertools.product((-4, -1.5, 0, 1, 3.0), (1, 5.0)):
        yield "ZPowerSphericalDistribution", dict(Lambda=0.7, delta=delta, r_max=r_max), {}
    for Lambda, r_max in ((0.2, 1), (2, 3.0), (1.0, 10)):
        yield "FlatlandDistribution", dict(Lambda=Lambda, r_max=r_max), {}
    for q, r_max in itertools.product((dict(rho=1e-3, a=1.64, b=4.01, R1=0.55, R0=8.5), dict(rho=1.0, a=0.5, b=1, R1=1, R0=2.0)), (5.0, 15)):
        yield "SpiralGalaxyDistribution", dict(q, r_max=r_max), {}
    for rate in (True, False):
        k = dict(is_rate=rate)
        for q, r_max in itertools.product((dict(a=0.2, rise=1.0, decay=3.0, peak=1.5), dict(a=1, rise=0, decay=0.1, peak=5), dict(a=0, rise=10, decay=6.0, peak=2)), (1, 3.0)):
            yield "SFRDistribution", dict(q, r0=0.5, r_max=r_max), k
        for delta, r_max in itertools.product((-4.0, 0, 2), (0.3, 4)):
            yield "ZPowerCosmoDistribution", dict(Lambda=2.0, delta=delta, r_max=r_max), k
        for (zmin, zmax), r_max in (((0.0, 2.0), 2.0), ((0.5, 1), 2), ((0, 4), 5.0)):
            yield "UniformCosmoDistribution", dict(r0=0.3, zmin=zmin, zmax=zmax, r_max=r_max), k
    # integers
    yield "ZPowerCosmoDistribution", dict(Lambda=2, delta=-3, r_max=3), {}
    yield "ZPowerSphericalDistribution", dict(Lambda=2, delta=-3, r_max=3), {}
    yield "SFRDistribution", dict(r0=2, a=1, rise=2, decay=4, peak=2, r_max=3), {}
    # very near and very far
    for r_max in (1e-3, 3e5):
        yield "ConstantSphericalDistribution", dict(Lambda=1.0, r_max=r_max), {}
        yield "FlatlandDistribution", dict(Lambda=1.0, r_max=r_max), {}
        yield "ZPowerSphericalDistribution", dict(Lambda=1.0, delta=-1.0, r_max=r_max), {}
    for r_max in (0.002, 35):
        yield "SFRDistribution", dict(r0=1.0, a=1.0, rise=0.5, decay=1.0, peak=1.5, r_max=r_max), {}
        yield "ZPowerCosmoDistribution", dict(Lambda=2.0, delta=1.5, r_max=r_max), {}
        yield "UniformCosmoDistribution", dict(r0=0.3, zmin=0.0, zmax=r_max, r_max=r_max), {}
        yield "SpiralGalaxyDistribution", dict(rho=1.0, a=1.0, b=1.0, R1=1.0, R0=8.0, r_max=r_max), {}


def peaked():
    """Densities whose maximum is found on a fine grid only"""
    for decay, peak, r_max in ((9.0, 0.35, 7.0), (30.0, 0.5, 10.0), (12.0, 0.85, 10.0), (20.0, 0.95, 12)):
        yield "SFRDistribution", dict(r0=1.0, a=0.0, rise=1.0, decay=decay, peak=peak, r_max=r_max), {}
    for delta, r_max in ((-12.0, 10.0), (-40.0, 10.0), (-30.0, 6), (60.0, 10.0)):
        yield "ZPowerSphericalDistribution", dict(Lambda=1.0, delta=delta, r_max=r_max), {}
    for delta in (-20.0, -9):
        yield "ZPowerCosmoDistribution", dict(Lambda=1.0, delta=delta, r_max=8.0), dict(is_rate=False)
    yield "SpiralGalaxyDistribution", dict(rho=1.0, a=8.0, b=60.0, R1=0.5, R0=8.0, r_max=20.0), {}


def far():
    """Densities whose maximum is close to the observer, on the scale of the maximum distance"""
    for r_max in (1000.0, 150, 60.0):
        yield "SFRDistribution", dict(r0=1.0, a=0.2, rise=1.0, decay=3.0, peak=1.5, r_max=r_max), {}
    for delta, r_max in ((-8.0, 1000.0), (-5, 1000), (-6.0, 100.0), (-5, 30.0)):
        yield "ZPowerCosmoDistribution", dict(Lambda=1.0, delta=delta, r_max=r_max), {}
    for delta, r_max in ((-40.0, 100.0), (-10, 1000), (-25.0, 30.0)):
        yield "ZPowerSphericalDistribution", dict(Lambda=1.0, delta=delta, r_max=r_max), {}


LAMBDAS = (0.0, 0.3, 1.0, 2.5, 12, 30.0, 7.0, 0.004, 25000.0, 3e6)
MODES = list(itertools.product((False, True), repeat=2))  # progress, normalize


def cases(tier):
    quick = tier == "quick"
    sets = list(parameters())
    for i, (c, p, k) in enumerate(peaked()):
        for progress, normalize in MODES if not quick else (MODES[i % 4], MODES[(i + 2) % 4]):
            yield dict(cls=c, p=p, k=k, progress=progress, normalize=normalize, kind="heights", grid=(40, 150) if quick else (100, 500))

    for i, (c, p, k) in enumerate(far()):
        for progress, normalize in MODES if not quick else (MODES[i % 4], MODES[(i + 2) % 4]):
            yield dict(cls=c, p=p, k=k, progress=progress, normalize=normalize, kind="heights", grid=(40, 150) if quick else (100, 500), focus=True)

    for i, (c, p, k) in enumerate(sets):
        for progress, normalize in MODES:
            base = dict(cls=c, p=p, k=k, progress=progress, normalize=normalize)
            if quick and i % 4 != 2 * progress + normalize and (i + 1) % 4 != 2 * progress + normalize:
                continue
            yield dict(base, kind="distances", grid=40 if quick else 96)
            if not quick or i % 3 == 0:
                yield dict(base, kind="pair", grid=7 if quick else 10)
            yield dict(base, kind="count")
            yield dict(base, kind="crowd", sizes=(250, 1100, 3000) if quick else (60, 250, 600, 1100, 3000, 20000))
        for normalize in (False, True):
            for lam in LAMBDAS:
                if quick and lam and (i + LAMBDAS.index(lam) + normalize) % (3 if 0.1 < lam < 1e6 else 9):
                    continue
                yield dict(kind="number", cls=c, p=p, k=k, normalize=normalize, lam=lam, grids=(1024, 32, 9) if quick else (4096, 96, 24))
        yield dict(kind="survey", cls=c, p=p, k=k, grid=16 if quick else 32)


def run(case, cov):
    globals()[case["kind"]](case, cov)
    cov.state(repr(sorted(case.items(), key=str)))


def make(case, **changes):
    return w.make(case["cls"], dict(case["p"], **changes), case["k"], registry=w.distribution_registry)


def reference(case, **changes):
    return space.Reference(case["cls"], dict(case["p"], **changes), case["k"].get("is_rate", True))


def finer(case):
    """The grid, finer the more answers are rejected"""
    ref = reference(case)
    r = case["p"]["r_max"] * np.linspace(0, 1, 2001)[1:]
    mean = ref.total() / case["p"]["r_max"]
    part = mean / max(float(ref.number(x)) for x in r)
    return int(case["grid"] * min(max(1.0, 0.3 / part), 4.0))


def slack(case):
    """The accuracy of the volume"""
    return 0.006 if case["cls"] in space.Reference.COSMO else 1e-4


def drawn(d, n, r_max):
    x = np.asarray(d.distances)
    check(x.shape == (n,), "not as many distances were drawn as asked for", got=x.shape, expected=n)
    x = x.astype(float)
    check(bool(((x >= 0) & (x <= r_max)).all()), "a distance is not within the maximum distance", got=x, r_max=r_max)
    return x


def draw_distance(d, n, case):
    # the perturbation that the spiral galaxy applies belongs to its sky positions
    d.draw_distance(n, normalize=case["normalize"]) if case["normalize"] else d.draw_distance(n)
    return drawn(d, n, case["p"]["r_max"])


def distances(case, cov):
    d = make(case)
    cdf = reference(case).cdf()
    grid = finer(case)
    with w.progress(case["progress"]):
        res = rng.tree(lambda: float(draw_distance(d, 1, case)[0]), grid, 2)
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    check(res.leaves > 3 * case["grid"], "harness: too few distances were accepted", leaves=res.leaves)
    dist = rng.cdf_distance(res, cdf)
    tol = 3.0 / case["grid"] + slack(case)
    check(dist < tol, "distances do not follow density times volume divided by the time adjustment", distance=dist, tolerance=tol, parameters=case["p"])
    cov.outcome((case["cls"], res.leaves, round(dist, 3)))
    if res.depth == 2 and res.cut > 0:
        proportional(res.values, case, grid, grid**2 * np.array(res.weights))


def proportional(values, case, other, weights=None):
    """
    If each distance comes from a pair of answers, the part of the pairs that leads to
    a distance is proportional to the density: the largest value of the density is not
    underestimated
    """
    part = {}
    for r, x in zip(values, np.ones(len(values)) if weights is None else weights):
        part[float(r)] = part.get(float(r), 0.0) + x / other
    r = np.array(sorted(part))
    got = np.array([part[x] for x in r])
    if got.max() > 1 + 1e-9:
        # not a pair of a distance and a height
        return
    ref = reference(case)
    f = np.array([float(ref.number(x)) for x in r])
    f = f / f.max()
    c = np.sum(got * f) / np.sum(f * f)
    worst = float(np.max(np.abs(got - c * f)))
    tol = 2.5 / other + 4 * slack(case)
    check(worst < tol, "distances do not occur in proportion to density times volume divided by the time adjustment", difference=worst, tolerance=tol, parameters=case["p"])


BATCH = 70


def heights(case, cov):
    """All pairs of answers for a distance and a height, many at once"""
    d = make(case)
    r_max = case["p"]["r_max"]
    few, k = case["grid"]
    ref = reference(case)
    u = np.linspace(0, 1, 1203)[1:-1]
    where = (np.arange(k) + 0.5) / k
    if case.get("focus"):
        # where the objects are
        e, c = ref.table()
        u = np.interp((np.arange(1000) + 0.5) / 1000, c / c[-1], e / r_max)
        where = np.interp(where, c / c[-1], e / r_max)
    best = float(u[np.argmax([ref.number(x * r_max) for x in u])])
    for height_first in (True, False):
        order = slice(None, None, 1 if height_first else -1)
        some = (best, 0.99 * best, 0.98 * best)
        rng.script([x for b in some for x in (0.0, b)[order]])
        with w.progress(case["progress"]):
            x = draw_distance(d, 3, case)
        if rng.consumed() == 6 and np.allclose(x / r_max, some, rtol=1e-9, atol=0):
            break
    else:
        cov.note("not drawn in pairs")
        return
    pairs = [((i + 0.5) / few, float(x)) for i in range(few) for x in where]
    values = []
    for at in range(0, len(pairs), BATCH):
        some = pairs[at : at + BATCH]
        # what follows is accepted (a height of 0), and is recognised
        rng.script([x for p in some for x in p[order]] + [x for _ in range(len(some)) for x in (0.0, best)[order]])
        with w.progress(case["progress"]):
            x = draw_distance(d, len(some), case)
        if rng.consumed() % 2 or rng.consumed() > 4 * len(some):
            cov.note("not drawn in pairs")
            return
        values += [v for v in x.tolist() if abs(v / r_max / best - 1) > 1e-9]
        cov.step(len(some))
    cov.note("leaves", len(pairs))
    # the distances are those of the answers
    check(0 < len(set(values)) <= k, "harness: no distance was accepted")
    proportional(values, case, few)
    cov.outcome((case["cls"], str(case["p"]), len(set(values))))


def pair(case, cov):
    d = make(case)
    cdf = reference(case).cdf()
    with w.progress(case["progress"]):
        res = rng.tree(lambda: tuple(draw_distance(d, 2, case)), case["grid"], 4)
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    if res.leaves < 40:
        return
    # the marginal distributions at this resolution, and their product
    v, wt = np.array(res.values), np.array(res.weights)
    wt = wt / wt.sum()
    m = [{}, {}]
    joint = {}
    for (a, b), x in zip(v.tolist(), wt):
        m[0][a] = m[0].get(a, 0) + x
        m[1][b] = m[1].get(b, 0) + x
        joint[a, b] = joint.get((a, b), 0) + x
    for a in m[0]:
        check(abs(m[0][a] - m[1].get(a, 0)) < 1e-9, "the distances of two objects follow different distributions", distance=a, got=(m[0][a], m[1].get(a)), parameters=case["p"])
        for b in m[1]:
            check(abs(joint.get((a, b), 0) - m[0][a] * m[1][b]) < 1e-9, "the distances of two objects are not independent", distances=(a, b), parameters=case["p"])


def count(case, cov):
    d = make(case)
    with w.progress(case["progress"]):
        for n in (0, 1, 2, 3, 7, 33):
            SEED(n)
            x = draw_distance(d, n, case)
            check(len(set(x.tolist())) == n, "different objects have the same distance", got=x)
            cov.step()


_classes = {}


def stopping(name):
    """The distribution, which stops a survey once the number of objects is known"""
    if name not in _classes:
        base = w.lookup(name, w.distribution_registry)

        def draw_distance(self, size, *args, **kw):
            raise Stop(size)

        def remembered(method):
            # the integrals over the same density are repeated for each answer
            known = {}

            def f(self, r):
                if np.ndim(r):
                    return getattr(base, method)(self, r)
                k = (r, tuple(self.params.values()), getattr(self, "_is_rate", None))
                if k not in known:
                    if len(known) > 5000:
                        known.clear()
                    known[k] = getattr(base, method)(self, r)
                return known[k]

            return f

        fs = {m: remembered(m) for m in ("dNdV", "differential_volume", "time_adjustment")}
        _classes[name] = type("McStop" + name, (base,), dict(fs, _distribution_name="McStop" + name, draw_distance=draw_distance))
    return _classes[name]


def number(case, cov):
    norm = space.Reference.NORM[case["cls"]]
    scale = space.Reference.SCALE[case["cls"]]
    lam, normalize = case["lam"], case["normalize"]
    if normalize:
        if norm is None:
            return
        value = lam
    else:
        unit = reference(case, **{scale: 1.0}).total()
        value = lam / unit
    params = dict(case["p"], **{scale: value})
    d = w.make(stopping(case["cls"]), params, case["k"])
    synth = P.PopulationSynth(d, luminosity_distribution=w.make(*w.LUM["delta"]), seed=3)

    def sample():
        np.random.seed = no_seed
        try:
            synth.draw_survey(normalize=True) if normalize else synth.draw_survey()
        except Stop as e:
            n = e.args[0]
        finally:
            np.random.seed = SEED
        check(int(n) == n and n >= 0, "the number of objects is not a natural number", got=n)
        return int(n)

    dlam = lam * (0.0 if normalize else 2 * slack(case)) + 1e-9
    if lam == 0.0:
        res = rng.tree(sample, 64, 1)
        check(set(res.values) <= {0} and res.cut == 0, "there are objects although none are expected", got=set(res.values), cut=res.cut)
        return
    if lam < 10:
        # the number is known from as many answers as there are objects and one
        for depth, grid in zip((1, 2, 3), case["grids"]):
            res = rng.tree(sample, grid, depth)
            cov.step(res.leaves)
            cov.note("leaves", res.leaves)
            pmf = {}
            for n, x in zip(res.values, res.weights):
                pmf[n] = pmf.get(n, 0.0) + x
            tol = 1.0 / grid + dlam
            one_each = res.depth == depth and all(n < depth for n in pmf)
            for n in range(depth if one_each else max(list(pmf) + [0]) + 1):
                e, g = float(stats.poisson.pmf(n, lam)), pmf.get(n, 0.0)
                check(g <= e + tol and (e <= g + tol + (0.0 if one_each else res.cut)), "the number of objects is not Poisson distributed about the expected number", number=n, probability=g, expected=e, tolerance=tol, lam=lam, parameters=params)
    else:
        res = rng.tree(sample, case["grids"][1], 2)
        cov.step(res.leaves)
        cov.note("leaves", res.leaves)
        check(res.cut < 0.5, "harness: too much was cut off", cut=res.cut)
        v, wt = res.arrays()
        wt = wt / wt.sum()
        worst = 0.0
        total = np.concatenate([[0.0], np.cumsum(wt)])
        n = np.arange(max(0, int(lam - 12 * np.sqrt(lam))), int(lam + 12 * np.sqrt(lam)) + 1, max(1, int(np.sqrt(lam) / 50)))
        worst = float(np.max(np.abs(total[np.searchsorted(v, n, side="right")] - stats.poisson.cdf(n, lam))))
        tol = 1.0 / case["grids"][1] + 0.4 / np.sqrt(lam) * dlam
        check(worst < tol, "the number of objects is not Poisson distributed about the expected number", distance=worst, tolerance=tol, lam=lam, parameters=params)
        cov.outcome((case["cls"], lam, round(worst, 3)))


def survey(case, cov):
    """Number asked for, and distances, of whole surveys"""
    spiral = case["cls"].startswith("Spiral")
    base = w.lookup(case["cls"], w.distribution_registry)
    name = "McSky" + case["cls"]
    if name not in _classes:

        def draw_sky_positions(self, *args, **kw):
            # fixed answers for the sky positions
            state = np.random.get_state()
            SEED(11)
            base.draw_sky_positions(self, *args, **kw)
            np.random.set_state(state)

        _classes[name] = type(name, (base,), dict(_distribution_name=name, draw_sky_positions=draw_sky_positions))
    synth = P.PopulationSynth(w.make(_classes[name], case["p"], case["k"]), luminosity_distribution=w.make(*w.LUM["delta"]), seed=3)

    def draw(n, **kw):
        pop = synth.draw_survey(n_samples=n, **kw)
        check(pop.n_objects == n and len(pop.distances) == n, "a survey has another number of objects than asked for", got=(pop.n_objects, len(pop.distances)), expected=n)
        x = w.arr(pop.distances).astype(float)
        if not spiral:
            check(bool(((x >= 0) & (x <= case["p"]["r_max"])).all()), "a distance is not within the maximum distance", got=x)
        return x

    for n in (0, 1, 2, 5, 17):
        for kw in ({}, dict(normalize=True)):
            draw(n, **kw)
            cov.step()
    if spiral:
        return
    cdf = reference(case).cdf()
    for kw in ({}, dict(normalize=True)):

        def sample():
            np.random.seed = no_seed
            try:
                return float(draw(1, **kw)[0])
            finally:
                np.random.seed = SEED

        res = rng.tree(sample, finer(case), 2)
        cov.step(res.leaves)
        cov.note("leaves", res.leaves)
        dist = rng.cdf_distance(res, cdf)
        tol = 3.0 / case["grid"] + slack(case)
        check(dist < tol, "distances of a survey do not follow density times volume divided by the time adjustment", distance=dist, tolerance=tol, parameters=case["p"], options=kw)


def crowd(case, cov):
    d = make(case)
    cdf = reference(case).cdf()
    for n in case["sizes"]:
        SEED(n)
        with w.progress(case["progress"]):
            x = draw_distance(d, n, case)
        cov.step()
        check(len(set(x.tolist())) == n, "different objects have the same distance", objects=n)
        rng.check_crowd([np.clip(cdf(x), 0, 1)], "distances", parameters=case["p"])
