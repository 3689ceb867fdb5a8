"""
P25: auxiliary samplers follow their declared distributions.

For a lattice of parameters of every provided sampler, observed and not, with and
without error: the tree of all answers of the random number generator (on a grid)
for the true and the observed value of one object and of two objects, of the
sampler on its own, as a secondary sampler, and in surveys, after all changes of
single parameters. Oracle: the declared distribution in closed form.
"""
import itertools

import numpy as np
from scipy import stats

from mc.core import check
from mc import p20
from mc import rng
from mc import world as w
from mc.p19 import Declared

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the answers of the random number generator on a grid, on the implementation, for a lattice of parameters"
BOUNDS = {
    "quick": "over 100 parameter sets of 11 samplers x observed or not x error or none; trees of at most 48^2, 16^3 or 8^4 answers for the true and observed value of 1 object, and of 12^2 to 3^6 for 2 objects; answers at the ends of the unit interval; changes of every parameter; as secondary sampler and in surveys; executions with 150, 1100 and 3000 objects",
    "thorough": "the same with 128^2, 40^3, 18^4 and 24^2 to 5^6 answers",
}
ASSUMPTIONS = [
    "the answers of the random number generator are equally probable on the grid; the distance of the enumerated from the declared distribution is bounded by the grid's resolution; answers that the generator of normal numbers rejects are cut off (it repeats)",
    "parameters are valid: positive scales, ordered bounds",
]
CHUNK = 1

P = w.popsynth
INF = np.inf


class Law:
    """The declared distribution of true values: support and distribution function"""

    def __init__(self, cls, p):
        getattr(self, cls)(**{k: v for k, v in p.items() if k != "sigma"})

    def NormalAuxSampler(self, mu, tau):
        self.low, self.high, self.cdf = -INF, INF, stats.norm(mu, tau).cdf

    def DeltaAuxSampler(self, xp):
        self.low = self.high = xp
        self.cdf = None

    def LogNormalAuxSampler(self, mu, tau):
        d = Declared("lognorm", dict(mu=mu, tau=tau))
        self.low, self.high, self.cdf = 0, INF, d.cdf

    def Log10NormalAuxSampler(self, mu, tau):
        d = Declared("log10norm", dict(mu=mu, tau=tau))
        self.low, self.high, self.cdf = 0, INF, d.cdf

    def truncated(self, cdf, lower, upper):
        a, b = cdf(lower), cdf(upper)
        self.low, self.high = lower, upper
        self.cdf = lambda x: (np.clip(cdf(np.asarray(x)), a, b) - a) / (b - a)

    def TruncatedNormalAuxSampler(self, mu, tau, lower, upper):
        N = stats.norm(mu, tau)
        # the upper tail in terms of what is beyond, which does not cancel
        self.truncated((lambda x: -N.sf(x)) if lower > mu else N.cdf, lower, upper)

    def TruncatedLogNormalAuxSampler(self, mu, tau, lower, upper):
        self.truncated(Declared("lognorm", dict(mu=mu, tau=tau)).cdf, lower, upper)

    def TruncatedLog10NormalAuxSampler(self, mu, tau, lower, upper):
        self.truncated(Declared("log10norm", dict(mu=mu, tau=tau)).cdf, lower, upper)

    def ParetoAuxSampler(self, xmin, alpha):
        d = Declared("pareto", dict(Lmin=xmin, alpha=alpha))
        self.low, self.high, self.cdf = xmin, INF, d.cdf

    def PowerLawAuxSampler(self, xmin, xmax, alpha):
        def piece(x):
            return np.log(x / xmin) if alpha == -1 else (x ** (alpha + 1.0) - xmin ** (alpha + 1.0)) / (alpha + 1.0)

        self.low, self.high = xmin, xmax
        self.cdf = lambda x: piece(np.clip(np.asarray(x, float), xmin, xmax)) / piece(float(xmax))

    def BrokenPowerLawAuxSampler(self, xmin, alpha, xbreak, beta, xmax):
        d = Declared("bpl", dict(Lmin=xmin, alpha=alpha, Lbreak=xbreak, beta=beta, Lmax=xmax))
        self.low, self.high, self.cdf = xmin, xmax, d.cdf

    def ViewingAngleSampler(self, max_angle):
        m = np.deg2rad(max_angle)
        self.low, self.high = 0.0, m
        self.cdf = lambda x: (1 - np.cos(np.clip(x, 0, m))) / (1 - np.cos(m))


def parameters():
    for mu, tau in ((0, 1), (1.5, 0.2), (-3.0, 2)):
        yield "NormalAuxSampler", dict(mu=mu, tau=tau)
        yield "LogNormalAuxSampler", dict(mu=mu / 2, tau=tau)
        yield "Log10NormalAuxSampler", dict(mu=mu / 3, tau=tau / 2)
    for xp in (0, 1.5, -2):
        yield "DeltaAuxSampler", dict(xp=xp)
    for mu, tau, lower, upper in ((0, 1, -1, 1), (2.0, 1.0, 0.5, 4.0), (0.0, 1.0, 1.0, 3.0), (1, 0.5, -2.0, 0.5), (5.0, 3, 0, 4), (0, 2, 0, 1.0)):
        yield "TruncatedNormalAuxSampler", dict(mu=mu, tau=tau, lower=lower, upper=upper)
    for mu, tau, lower, upper in ((0, 1, 0.5, 2), (0.5, 0.3, 0.5, 4.0), (1.0, 1.0, 0, 3.0), (-1, 0.5, 0.4, 10), (2.0, 2, 1, 5), (0, 1, 2.0, 30.0)):
        yield "TruncatedLogNormalAuxSampler", dict(mu=mu, tau=tau, lower=lower, upper=upper)
    for mu, tau, lower, upper in ((0, 1, 0.5, 2), (0.2, 0.3, 0.5, 4.0), (0.5, 0.5, 0, 3.0), (-1, 0.5, 0.05, 10), (2.0, 1, 20, 5000), (0, 0.4, 2.0, 30.0)):
        yield "TruncatedLog10NormalAuxSampler", dict(mu=mu, tau=tau, lower=lower, upper=upper)
    for xmin, alpha in itertools.product((0.5, 1, 3.0), (0.5, 1, 2.5)):
        yield "ParetoAuxSampler", dict(xmin=xmin, alpha=alpha)
    for xmin, xmax in ((1, 2), (0.5, 4.0), (2.0, 30)):
        for alpha in (-2.5, -1, 0, 1, 2.0):
            yield "PowerLawAuxSampler", dict(xmin=xmin, xmax=xmax, alpha=alpha)
    for alpha, beta in itertools.product((-1, -0.5, 1.0), (-3.0, -1, 0.5)):
        yield "BrokenPowerLawAuxSampler", dict(xmin=1, alpha=alpha, xbreak=2.0, beta=beta, xmax=5)
    # far from the centre, heavy tails, slopes close to special ones
    for mu, tau in ((1e6, 0.5), (0.0, 1e-6), (-40, 300.0)):
        yield "NormalAuxSampler", dict(mu=mu, tau=tau)
    for mu, tau in ((50.0, 2), (-12, 0.01), (0.0, 5)):
        yield "LogNormalAuxSampler", dict(mu=mu, tau=tau)
        yield "Log10NormalAuxSampler", dict(mu=mu, tau=tau)
    for mu, tau, lower, upper in ((0.0, 1.0, 3.5, 5.0), (0, 1, -6.0, -4), (10.0, 2.0, -30.0, 50.0), (0, 100.0, -1, 2), (1e3, 10.0, 990, 1e3), (0.0, 1.0, -9.0, -7.0), (0, 1, 7.5, 9), (1.0, 0.1, -0.5, 0.1), (0.0, 2.0, 16.0, 40)):
        yield "TruncatedNormalAuxSampler", dict(mu=mu, tau=tau, lower=lower, upper=upper)
    for mu, tau, lower, upper in ((0.0, 1.0, 35.0, 100.0), (0, 0.5, 0.05, 0.15), (20.0, 1.0, 1e8, 1e9), (0, 3, 1e-5, 1e5)):
        yield "TruncatedLogNormalAuxSampler", dict(mu=mu, tau=tau, lower=lower, upper=upper)
    for mu, tau, lower, upper in ((0.0, 1.0, 4e3, 1e5), (0, 0.5, 0.001, 0.02), (51.0, 1.0, 1e50, 1e53), (0, 3, 1e-5, 1e5)):
        yield "TruncatedLog10NormalAuxSampler", dict(mu=mu, tau=tau, lower=lower, upper=upper)
    for xmin, alpha in ((1.0, 0.05), (1e51, 1.5), (1e-8, 12), (2, 40.0)):
        yield "ParetoAuxSampler", dict(xmin=xmin, alpha=alpha)
    for alpha in (-0.95, -1.05, -1.002, -0.99, -3, -6.0, 8):
        yield "PowerLawAuxSampler", dict(xmin=2, xmax=50, alpha=alpha)
    for xmin, xmax, alpha in ((1e47, 1e54, -1.7), (1e-6, 1e3, -1.0), (1, 1.001, 2), (1, 100000, -2)):
        yield "PowerLawAuxSampler", dict(xmin=xmin, xmax=xmax, alpha=alpha)
    for alpha, beta in ((-0.99, -3), (-1.01, -1.02), (-3, -2), (2, -5), (0, 0)):
        yield "BrokenPowerLawAuxSampler", dict(xmin=1, alpha=alpha, xbreak=4, beta=beta, xmax=30)
    yield "BrokenPowerLawAuxSampler", dict(xmin=1e47, alpha=-1.2, xbreak=1e51, beta=-2, xmax=1e54)
    yield "BrokenPowerLawAuxSampler", dict(xmin=1e-5, alpha=0.3, xbreak=1e-3, beta=-1.7, xmax=1e4)
    for m in (0.5, 2, 170.0):
        yield "ViewingAngleSampler", dict(max_angle=m)
    for m in (10, 45.0, 60, 90, 135.0, 180):
        yield "ViewingAngleSampler", dict(max_angle=m)


# how many answers the true value takes
NORMAL = ("NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler")
ANSWERS = dict({c: 2 for c in NORMAL}, BrokenPowerLawAuxSampler=2, DeltaAuxSampler=0)


def scale(cls, p):
    """
    What errors are in proportion to: 1, if the values are of about that size, their
    median if they are positive, and None if they span too many orders of magnitude to
    tell errors from the true values
    """
    law = Law(cls, p)
    within = lambda m: law.cdf is None or law.cdf(m * 1e6) - law.cdf(-m * 1e6) > 1 - 1e-6
    if within(1.0):
        return 1.0
    lo, hi = 1e-300, 1e300
    while hi / lo > 1.01:
        m = np.sqrt(lo) * np.sqrt(hi)
        lo, hi = (m, hi) if law.cdf(m) < 0.5 else (lo, m)
    return float("%.1g" % hi) if within(hi) else None


def cases(tier):
    quick = tier == "quick"
    grids = {1: 256, 2: 48, 3: 16, 4: 8} if quick else {1: 2048, 2: 128, 3: 40, 4: 18}
    joint = {0: 1, 1: 64, 2: 12, 3: 6, 4: 5, 6: 3} if quick else {0: 1, 1: 256, 2: 24, 3: 12, 4: 8, 6: 5}
    for i, (cls, p) in enumerate(parameters()):
        n = ANSWERS.get(cls, 1)
        va = cls == "ViewingAngleSampler"
        unit = 1.0 if va else scale(cls, p)
        wide = unit is None
        for sigma in (None,) if va else (0,) if wide else (0.3 * unit, 2.0 * unit, 0):
            for observed in (True, False):
                large = sigma and sigma == 2.0 * unit
                if large and (not observed or (quick and i % 2)):
                    continue
                if va and observed:
                    continue
                base = dict(cls=cls, p=p if va else dict(p, sigma=sigma), observed=observed)
                noisy = observed and sigma
                # true and observed value share the pair of normal numbers
                depth = n if not noisy else (2 if n == 2 and cls in NORMAL else n + 2)
                yield dict(base, kind="one", how="own", depth=depth, grid=grids.get(depth, 1))
                if not large:
                    yield dict(base, kind="ends", n=n)
                    yield dict(base, kind="many")
                    yield dict(base, kind="crowd", sizes=(150, 1100, 3000) if quick else (60, 150, 600, 1100, 3000, 30000))
                if wide or va or (sigma and not large):
                    # pairs of objects: 2 n answers and a pair of normal numbers
                    if cls in NORMAL:
                        d = 4 if noisy else 2
                    else:
                        d = 2 * n + (2 if noisy else 0)
                    yield dict(base, kind="two", depth=d, grid=joint.get(d, 4))
                    for how in ("secondary", "survey", "survey secondary", "retuned"):
                        if quick and how.startswith("survey") and (i + observed + (" " in how)) % 2:
                            continue
                        g = {1: 64, 2: 20, 3: 8, 4: 5}.get(depth, 1)
                        yield dict(base, kind="one", how=how, depth=depth, grid=g if quick else 2 * g)


def run(case, cov):
    globals()[case["kind"]](case, cov)
    cov.state(repr(sorted(case.items(), key=str)))


def make(case, **changes):
    kw = {} if case["cls"] == "ViewingAngleSampler" else dict(name="x", observed=case["observed"])
    return w.make(case["cls"], dict(case["p"], **changes), kw, registry=w.auxiliary_parameter_registry)


class McParent(P.AuxiliarySampler):
    """Something that depends on another sampler, without random numbers"""

    _auxiliary_sampler_name = "McParent"

    def __init__(self, name="parent"):
        super().__init__(name, observed=False)

    def true_sampler(self, size):
        (s,) = self._secondary_samplers.values()
        self._true_values = 3.0 * np.asarray(s.true_values, dtype=float)


def fixed_world():
    d = p20.fixed("const")
    return d


class source:
    """Where the values of a sampler are drawn"""

    def __init__(self, case):
        self.case, self.how = case, case.get("how", "own")
        self.observed = case["observed"]
        if self.how == "retuned":
            # other parameters first
            p = case["p"]
            self.o = make(case, **{k: v for k, v in other(case["cls"], p).items()})
            self.o.draw(3)
            self.o.reset()
            for k, v in p.items():
                setattr(self.o, k, v)
        else:
            self.o = make(case)
        if "secondary" in self.how:
            self.parent = McParent()
            self.parent.set_secondary_sampler(self.o)
        if self.how.startswith("survey"):
            self.synth = P.PopulationSynth(p20.fixed("const"), luminosity_distribution=w.make(*w.LUM["delta"]), seed=5)
            self.synth.add_observed_quantity(self.parent if "secondary" in self.how else self.o)

    def draw(self, n):
        o = self.o
        if self.how.startswith("survey"):
            state = np.random.get_state()
            d = self.synth.spatial_distribution
            cls = type(d)

            def draw_sky_positions(size):
                p20.SEED(7)
                cls.draw_sky_positions(d, size)
                np.random.set_state(state)

            d.draw_sky_positions = draw_sky_positions
            np.random.seed = p20.no_seed
            try:
                pop = self.synth.draw_survey(n_samples=n)
            finally:
                np.random.seed = p20.SEED
                del d.draw_sky_positions
            v = getattr(pop, o.name)
            t, x = w.arr(v.latent), w.arr(v)
            t2, x2 = w.arr(o.true_values), w.arr(o.obs_values)
            check(np.array_equal(t, t2) and np.array_equal(x, x2), "the values in a survey are not those of the sampler")
        elif self.how == "secondary":
            self.parent.reset()
            self.parent.set_spatial_values(P.distribution.SpatialContainer(np.ones(n), np.ones(n), np.ones(n)))
            self.parent.draw(n)
            t, x = np.asarray(o.true_values), np.asarray(o.obs_values)
            check(bool(np.array_equal(w.arr(self.parent.true_values), 3.0 * t)), "a sampler sees other values of its secondary sampler")
        else:
            o.reset()
            o.draw(n)
            t, x = np.asarray(o.true_values), np.asarray(o.obs_values)
        check(t.shape == (n,) and x.shape == (n,), "not as many values were drawn as asked for", got=(t.shape, x.shape), expected=n)
        t, x = t.astype(float), x.astype(float)
        law = self.law()
        tol = 1e-12
        check(
            bool(((t >= law.low - tol * abs(law.low)) & (t <= law.high + tol * abs(law.high)) & np.isfinite(t)).all()),
            "a true value is out of the declared bounds", got=t, bounds=(law.low, law.high), parameters=self.case["p"],
        )
        if not self.observed or not self.case["p"].get("sigma"):
            check(bool((t == x).all()), "a sampler that is not observed, or without error, has other observed values than true ones", true=t, observed=x, parameters=self.case["p"])
        return t, x

    def law(self):
        return Law(self.case["cls"], self.case["p"])


def other(cls, p):
    """Other valid parameters"""
    if "lower" in p:
        return dict(mu=p["mu"] + 0.1, tau=p["tau"] * 1.5, lower=p["lower"] + 0.01, upper=p["upper"] + 1)
    if cls == "ViewingAngleSampler":
        return dict(max_angle=77.0)
    out = {}
    for k, v in p.items():
        out[k] = v * 1.1 + (0.05 if k in ("alpha", "beta", "mu") else 0.0)
    return out


def tolerance(case):
    return 1.3 / case["grid"]


def one(case, cov):
    src = source(case)
    law = src.law()
    sigma = case["p"].get("sigma") if case["observed"] else 0

    def sample():
        t, x = src.draw(1)
        return float(t[0]), float(x[0])

    res = rng.tree(sample, case["grid"], case["depth"])
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    check(res.cut < 0.5 and res.leaves, "harness: a value asks for more answers than expected", cut=res.cut)
    true, obs = np.array(res.values).T
    details = dict(parameters=case["p"], how=case["how"])
    if law.cdf is None:
        check(bool((true == law.low).all()), "a true value is not that of the point mass", got=sorted(set(true))[:4], **details)
    else:
        d = distance(true, res, law.cdf)
        check(d < tolerance(case), "true values do not follow the declared distribution", distance=d, tolerance=tolerance(case), **details)
        cov.outcome((case["cls"], round(d * case["grid"], 2)))
    if sigma:
        error = stats.norm(0, sigma).cdf
        d = distance(obs - true, res, error)
        check(d < tolerance(case), "observed values do not scatter about the true ones with the declared error", distance=d, tolerance=tolerance(case), **details)
        if law.cdf is not None:
            r = rng.Result()
            r.values, r.weights = list(zip(true, obs - true)), res.weights
            rng.check_independent(r, law.cdf, error, "true values and errors", 1.6 / case["grid"], **details)
    if case["cls"] == "ViewingAngleSampler" and case["how"] != "secondary":
        # the density of the last one
        m = np.deg2rad(case["p"]["max_angle"])
        g = np.asarray(src.o.probability, dtype=float)
        e = np.sin(w.arr(src.o.true_values)) / (1 - np.cos(m))
        check(g.shape == (1,) and abs(g[0] - e[0]) < 1e-9, "the probability of a viewing angle is not its density", got=g, expected=e)


def distance(v, res, cdf):
    r = rng.Result()
    r.values, r.weights = list(v), res.weights
    return rng.cdf_distance(r, cdf)


def two(case, cov):
    """Values of different objects are independent"""
    src = source(case)
    law = src.law()
    sigma = case["p"].get("sigma") if case["observed"] else 0

    def sample():
        t, x = src.draw(2)
        return tuple(t) + tuple(x - t)

    res = rng.tree(sample, case["grid"], case["depth"])
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    check(res.cut < 0.5 and res.leaves, "harness: values ask for more answers than expected", cut=res.cut)
    v = np.array(res.values)
    columns = []
    if law.cdf is not None:
        columns += [(0, law.cdf), (1, law.cdf)]
    if sigma:
        error = stats.norm(0, sigma).cdf
        columns += [(2, error), (3, error)]
    for (i, f), (j, g) in itertools.combinations(columns, 2):
        r = rng.Result()
        r.values, r.weights = list(zip(v[:, i], v[:, j])), res.weights
        rng.check_independent(r, f, g, "values of two objects", 1.8 / case["grid"], columns=(i, j), parameters=case["p"])


def ends(case, cov):
    """Answers at the ends of the unit interval stay within the bounds"""
    src = source(case)
    low = 1e-9 if "Truncated" in case["cls"] else 0.0
    for us in itertools.product((low, 1e-6, 0.5, 1 - 1e-6, 1 - 1e-9), repeat=3):
        rng.script(list(us) + [0.3, 0.6] * 20)
        src.draw(1)
        cov.step()


def many(case, cov):
    src = source(case)
    for n in (0, 1, 2, 3, 5, 8, 40):
        for seed in range(3):
            p20.SEED(seed + 10 * n)
            t, x = src.draw(n)
            if src.law().cdf is not None:
                check(len(set(t.tolist())) == n, "different objects have the same true value", got=t, parameters=case["p"])
            if case["observed"] and case["p"].get("sigma"):
                check(len(set((x - t).tolist())) == n, "different objects have the same error", got=x - t, parameters=case["p"])
            cov.step()


def crowd(case, cov):
    src = source(case)
    law = src.law()
    sigma = case["p"].get("sigma") if case["observed"] else 0
    for n in case["sizes"]:
        p20.SEED(n)
        t, x = src.draw(n)
        cov.step()
        columns = []
        if law.cdf is None:
            check(bool((t == law.low).all()), "a true value is not that of the point mass", parameters=case["p"])
        else:
            columns.append(np.clip(law.cdf(t), 0, 1))
        if sigma:
            columns.append(stats.norm(0, sigma).cdf(x - t))
        if columns:
            rng.check_crowd(columns, "values of a sampler", parameters=case["p"])
