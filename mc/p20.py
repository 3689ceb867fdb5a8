"""
P20: sky positions are uniform on the sphere and consistent.

The tree of all answers of the random number generator (on a grid) for the sky
positions of one, two and three objects, drawn by the function that samples the
sphere, by every spatial distribution, and by surveys; for the samplers of angles,
on their own and in surveys. The lattice of vectors for the conversion to Cartesian
coordinates.
"""
import itertools

import numpy as np

from popsynth.aux_samplers.sky_sampler import SkySampler
from popsynth.utils import spherical_geometry as geo

from mc.core import check
from mc import world as w
from mc import rng

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the answers of the random number generator on a grid, on the implementation"
BOUNDS = {
    "quick": "the sphere function, 9 spatial distributions and their surveys: trees of 64^2 answers for 1 object, 8^4 for 2, 4^6 for 3; extreme answers, both ends of every range; angle samplers: 512 answers for 1 object, 16^2 for 2, both in surveys with 24^2; spiral galaxy: 6^6 answers; 9 x 13 x 17 vectors; executions with 150, 1100 and 4000 objects",
    "thorough": "the same with 160^2, 12^4, 5^6 answers, and 8^6 for the spiral galaxy",
}
ASSUMPTIONS = [
    "the answers of the random number generator are equally probable on the grid; the distance of the enumerated from the declared distribution is bounded by the grid's resolution",
]
CHUNK = 1

P = w.popsynth
UNIFORM = [s for s in w.SPATIAL if s != "spiral"]

theta_cdf = lambda t: 0.5 * (1 - np.cos(np.clip(t, 0, np.pi)))
phi_cdf = lambda p: np.clip(p, 0, 2 * np.pi) / (2 * np.pi)
dec_cdf = lambda d: 0.5 * (1 + np.sin(np.clip(d, -np.pi / 2, np.pi / 2)))

_classes = {}


def fixed(name):
    """
    A distribution of the given kind, whose distances are drawn with fixed answers
    of the generator such that what is enumerated are the sky positions
    """
    cls, params = w.SPATIAL[name][0], w.SPATIAL[name][1]
    kwargs = w.SPATIAL[name][2] if len(w.SPATIAL[name]) > 2 else {}
    base = w.lookup(cls, w.distribution_registry)
    if cls not in _classes:

        def draw_distance(self, *args, **kw):
            state = np.random.get_state()
            np.random.seed = SEED
            try:
                SEED(4321)
                base.draw_distance(self, *args, **kw)
            finally:
                np.random.seed = no_seed
                np.random.set_state(state)

        _classes[cls] = type("Mc" + cls, (base,), dict(_distribution_name="Mc" + cls, draw_distance=draw_distance))
    return w.make(_classes[cls], params, kwargs)


SEED = np.random.seed


def no_seed(*args, **kwargs):
    """Keep the enumerated answers"""


def survey(name, n):
    s = P.PopulationSynth(fixed(name), luminosity_distribution=w.make(*w.LUM["delta"]), seed=5)
    np.random.seed = no_seed
    try:
        return s.draw_survey(n_samples=n)
    finally:
        np.random.seed = SEED


def cases(tier):
    quick = tier == "quick"
    one, two, three = (64, 8, 4) if quick else (160, 12, 5)
    for source in ["function"] + ["distribution " + s for s in UNIFORM] + ["survey " + s for s in UNIFORM]:
        light = source.startswith("survey") and quick
        yield dict(kind="uniform", source=source, n=1, grid=24 if light else one)
        yield dict(kind="uniform", source=source, n=2, grid=6 if light else two)
        yield dict(kind="uniform", source=source, n=3, grid=3 if light else three)
        yield dict(kind="extreme", source=source)
        yield dict(kind="crowd", source=source, sizes=(150, 1100, 4000) if quick else (60, 150, 600, 1100, 4000, 60000))
    for i in range(6 if quick else 8):
        yield dict(kind="spiral", first=i, grid=6 if quick else 8)
    yield dict(kind="spiral survey")
    for s in ("ra", "dec"):
        yield dict(kind="angle", name=s, grid=512 if quick else 4096, joint=16 if quick else 64)
    yield dict(kind="angles", grid=24 if quick else 64, two=5 if quick else 8)
    yield dict(kind="crowd", source="samplers", sizes=(150, 1100, 4000) if quick else (60, 150, 600, 1100, 4000, 60000))
    yield dict(kind="cartesian")


def run(case, cov):
    globals()[case["kind"].replace(" ", "_")](case, cov)
    cov.state(tuple(sorted((k, str(v)) for k, v in case.items())))


def flat(x, n, what):
    x = np.asarray(x)
    check(x.shape == (n,), "the %s are not one for each object" % what, got=x.shape, expected=n)
    return x.astype(float)


def consistent(o, n, theta, phi):
    """Declination and right ascension of something that has them"""
    ra, dec = flat(o.ra, n, "right ascensions"), flat(o.dec, n, "declinations")
    check(bool(np.allclose(dec, 90 - np.degrees(theta), rtol=0, atol=1e-9)), "the declination is not 90 degrees minus the polar angle", dec=dec, theta=theta)
    check(bool(np.allclose(ra, np.degrees(phi), rtol=0, atol=1e-9)), "the right ascension is not the azimuth", ra=ra, phi=phi)


def ranges(theta, phi, extreme=False):
    check(bool(((theta >= 0) & (theta <= np.pi)).all()), "a polar angle is not between 0 and 180 degrees", theta=theta)
    top = phi <= 2 * np.pi if extreme else phi < 2 * np.pi
    check(bool(((phi >= 0) & top).all()), "an azimuth is not between 0 and 360 degrees", phi=phi)


def positions(source, n):
    """Polar angles and azimuths of n objects of a source"""
    if source == "function":
        t, p = geo.sample_theta_phi(n)
        return flat(t, n, "polar angles"), flat(p, n, "azimuths")
    kind, name = source.split(" ")
    if kind == "distribution":
        d = fixed(name)
        d.draw_distance(n)
        d.draw_sky_positions(n)
        t, p = flat(d.theta, n, "polar angles"), flat(d.phi, n, "azimuths")
        consistent(d, n, t, p)
        v = d.spatial_values
        consistent(v, n, t, p)
        check(bool((np.asarray(v.theta) == t).all() and (np.asarray(v.phi) == p).all()), "the spatial values that samplers get are not those of the distribution")
        check(bool((np.asarray(v.distance) == np.asarray(d.distances)).all()), "the distances that samplers get are not those of the distribution")
        return t, p
    pop = survey(name, n)
    t, p = flat(pop.theta, n, "polar angles"), flat(pop.phi, n, "azimuths")
    consistent(pop, n, t, p)
    return t, p


def uniform(case, cov):
    n, grid = case["n"], case["grid"]

    def sample():
        t, p = positions(case["source"], n)
        ranges(t, p)
        return tuple(t) + tuple(p)

    res = rng.tree(sample, grid, 2 * n)
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)
    check(res.cut == 0, "harness: sky positions ask for more answers than expected", cut=res.cut)
    check_joint(res, [theta_cdf] * n + [phi_cdf] * n, grid, "sky positions of the " + case["source"])
    cov.outcome((case["source"], n, res.leaves))


def check_joint(res, cdfs, grid, what):
    """Each column follows its distribution and any two of them are independent"""
    values = res.values
    for i, cdf in enumerate(cdfs):
        r = rng.Result()
        r.values, r.weights = [v[i] for v in values], res.weights
        d = rng.cdf_distance(r, cdf)
        check(d <= 0.75 / grid, "the %s are not distributed uniformly on the sphere" % what, component=i, distance=d, tolerance=0.75 / grid)
    for i, j in itertools.combinations(range(len(cdfs)), 2):
        r = rng.Result()
        r.values, r.weights = [(v[i], v[j]) for v in values], res.weights
        rng.check_independent(r, cdfs[i], cdfs[j], what, 1.4 / grid, components=(i, j))


EXTREME = (0.0, 2.0**-53, 1e-9, 0.25, 0.5, 0.75, 1 - 1e-9, 1 - 2.0**-53)


def extreme(case, cov):
    """In their ranges, and up to the ends of them"""
    thetas, phis = [], []
    for us in itertools.product(EXTREME, repeat=2):
        rng.script(list(us) + [0.5] * 20)
        t, p = positions(case["source"], 1)
        ranges(t, p, True)
        thetas.append(theta_cdf(t[0]))
        phis.append(phi_cdf(p[0]))
        cov.step()
    for x, what in ((thetas, "polar angles"), (phis, "azimuths")):
        check(min(x) < 1e-8 and max(x) > 1 - 1e-8, "the %s do not reach the ends of their range" % what, smallest=min(x), largest=max(x))


def spiral(case, cov):
    """Bounds and consistency of the positions in the spiral galaxy"""
    grid = case["grid"]
    pts = (np.arange(grid) + 0.5) / grid
    d = fixed("spiral")
    for us in itertools.product(pts, repeat=5):
        np.random.seed = no_seed
        try:
            d.draw_distance(2)
            rng.script([pts[case["first"]]] + list(us) + list(us[::-1]) + [0.5] * 20)
            d.draw_sky_positions(2)
        finally:
            np.random.seed = SEED
        t, p = flat(d.theta, 2, "polar angles"), flat(d.phi, 2, "azimuths")
        ranges(t, p)
        cov.step()
    consistent(d, 2, t, p)
    consistent(d.spatial_values, 2, t, p)


def spiral_survey(case, cov):
    for seed in range(40):
        s = P.PopulationSynth(w.make(*w.SPATIAL["spiral"]), luminosity_distribution=w.make(*w.LUM["delta"]), seed=seed)
        n = 1 + seed % 7
        pop = s.draw_survey(n_samples=n)
        t, p = flat(pop.theta, n, "polar angles"), flat(pop.phi, n, "azimuths")
        ranges(t, p)
        consistent(pop, n, t, p)
        cov.step()


ANGLES = {"ra": ("RASampler", phi_cdf), "dec": ("DecSampler", dec_cdf)}


def values(o, n, name):
    x = flat(o.true_values, n, name)
    y = flat(o.obs_values, n, name)
    check(bool((x == y).all()), "a sampler that is not observed has other observed values than true ones", name=name)
    if name == "ra":
        check(bool(((x >= 0) & (x < 2 * np.pi)).all()), "a right ascension is not between 0 and 360 degrees", got=x)
    else:
        check(bool((np.abs(x) <= np.pi / 2).all()), "a declination is not between -90 and 90 degrees", got=x)
    return x


def angle(case, cov):
    cls, cdf = ANGLES[case["name"]]
    o = w.make(cls)
    check(o.name == case["name"], "the sampler has another name", got=o.name)

    def sample(n):
        def f():
            o.reset()
            o.draw(n)
            return tuple(values(o, n, case["name"]))

        return f

    ends = []
    for u in EXTREME:
        rng.script([u] + [0.5] * 20)
        ends.append(float(cdf(np.asarray(sample(1)()))[0]) if u < 1 - 1e-12 else 1.0)
        cov.step()
    check(min(ends) < 1e-8 and sorted(ends)[-2] > 1 - 1e-8, "the angles of a sampler do not reach the ends of their range", name=case["name"], got=ends)
    res = rng.tree(sample(1), case["grid"], 1)
    check(res.cut == 0, "harness: an angle asks for more than one answer", cut=res.cut)
    check_joint(res, [cdf], case["grid"], "angles of the sampler " + case["name"])
    cov.step(res.leaves)
    res = rng.tree(sample(2), case["joint"], 2)
    check_joint(res, [cdf] * 2, case["joint"], "angles of the sampler " + case["name"])
    cov.step(res.leaves)
    cov.note("leaves", res.leaves)


def angles(case, cov):
    """Both angles together, as the sky sampler provides them, in a survey"""
    sky = SkySampler()
    ra, dec = w.make("RASampler"), w.make("DecSampler")
    own = SkySampler(ra_sampler=ra, dec_sampler=dec)
    check(own.ra_sampler is ra and own.dec_sampler is dec, "a sky sampler has other samplers than those it was given")
    for s in (sky, own):
        for n, grid in ((1, case["grid"]), (2, case["two"])):
            synth = P.PopulationSynth(fixed("const"), luminosity_distribution=w.make(*w.LUM["delta"]), seed=5)
            synth.add_observed_quantity(s.ra_sampler)
            synth.add_observed_quantity(s.dec_sampler)

            def sample():
                state = np.random.get_state()
                # sky positions of the survey itself get fixed answers
                d = synth.spatial_distribution
                cls = type(d)

                def draw_sky_positions(size):
                    SEED(7)
                    cls.draw_sky_positions(d, size)
                    np.random.set_state(state)

                d.draw_sky_positions = draw_sky_positions
                np.random.seed = no_seed
                try:
                    pop = synth.draw_survey(n_samples=n)
                finally:
                    np.random.seed = SEED
                    del d.draw_sky_positions
                a, b = values(s.ra_sampler, n, "ra"), values(s.dec_sampler, n, "dec")
                t, p = flat(pop.theta, n, "polar angles"), flat(pop.phi, n, "azimuths")
                consistent(pop, n, t, p)
                data = pop.to_stan_data()
                check(bool((flat(data["ra_obs"], n, "ra") == a).all() and (flat(data["dec_obs"], n, "dec") == b).all()), "the angles of a survey are not those that were sampled")
                return tuple(a) + tuple(b)

            res = rng.tree(sample, grid, 2 * n)
            check(res.cut == 0, "harness: the angles ask for more answers than expected", cut=res.cut)
            check_joint(res, [phi_cdf] * n + [dec_cdf] * n, grid, "angles of the sky sampler")
            cov.step(res.leaves)
            cov.note("leaves", res.leaves)


def cartesian(case, cov):
    rs = (0, 1, 2, 0.5, 1e-6, 3.7, 1e3, 12345.678, 1e9)
    ts = np.linspace(0, np.pi, 13)
    ps = np.linspace(0, 2 * np.pi, 17)
    vectors = list(itertools.product(rs, ts, ps))
    R, T, F = (np.array(c, dtype=float) for c in zip(*vectors))
    X, Y, Z = (np.asarray(c, dtype=float) for c in geo.xyz(R, T, F))
    for i, (r, t, p) in enumerate(vectors):
        tol = 1e-12 * max(r, 1e-300)
        for x, y, z in (geo.xyz(r, t, p), (X[i], Y[i], Z[i])):
            x, y, z = float(x), float(y), float(z)
            check(abs(np.sqrt(x * x + y * y + z * z) - r) <= tol, "Cartesian coordinates are at another distance", r=r, theta=t, phi=p, got=(x, y, z))
            if r > 0:
                # angle from the pole and in the plane
                check(abs(np.arctan2(np.hypot(x, y), z) - t) < 1e-9, "Cartesian coordinates are at another polar angle", r=r, theta=t, phi=p, got=(x, y, z))
                if 1e-6 < t < np.pi - 1e-6:
                    e = np.arctan2(y, x) - p
                    check(abs(np.sin(e)) < 1e-9 and np.cos(e) > 0, "Cartesian coordinates are at another azimuth", r=r, theta=t, phi=p, got=(x, y, z))
        cov.step()
    check(bool((R == [v[0] for v in vectors]).all() and (T == [v[1] for v in vectors]).all()), "the conversion changes its arguments")


def crowd(case, cov):
    for n in case["sizes"]:
        SEED(n)
        if case["source"] == "samplers":
            sky = SkySampler()
            for o in (sky.ra_sampler, sky.dec_sampler):
                o.draw(n)
            a, b = values(sky.ra_sampler, n, "ra"), values(sky.dec_sampler, n, "dec")
            columns = [phi_cdf(a), dec_cdf(b)]
        else:
            t, p = positions(case["source"], n)
            ranges(t, p)
            columns = [theta_cdf(t), phi_cdf(p)]
        cov.step()
        rng.check_crowd(columns, "sky positions", source=case["source"])
