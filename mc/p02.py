"""
P02: the table of a survey is complete and every column describes the same
objects.

Every combination of spatial distribution, luminosity source, number of objects,
flux selection, measurement error, log base and progress bars. Oracle: the flux
of every object recomputed from its own row; the values the samplers hold; the
noise recomputed from surveys with other errors and from the enumerated answers
of the random number generator.
"""
import itertools

import numpy as np

from mc.core import check
from mc import world as w
from mc import rng

LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 spatial x (7 luminosity functions + derived) x n in 0..3, 200 and drawn n x flux selection kinds x errors x log base; noise kernel on a grid of 64 x 64 RNG answers",
    "thorough": "as quick, n up to 8, every seed of 12, and a 256 x 256 grid",
}
ASSUMPTIONS = [
    "an explicitly attached UnitySelection as flux selection is not in the alphabet",
]
CHUNK = 1

SIGMAS = [None, 0.1, 0.4, 1e-4, 5, 12.0]


def cases(tier):
    ns = [0, 1, 2, 3, 200, None] if tier == "quick" else [0, 1, 2, 3, 5, 8, 200, 1500, None]
    seeds = [11] if tier == "quick" else list(range(12))
    for seed in seeds:
        for sp in w.SPATIAL:
            for lu in list(w.LUM) + ["derived", "both"]:
                for n in ns:
                    yield dict(spatial=sp, lum=lu, n=n, seed=seed)
    for log10 in (True, False):
        for sigma in (1e-5, 0.05, 0.3, 1, 2.0, 15.0):
            yield dict(kernel=True, log10=log10, sigma=sigma, grid=64 if tier == "quick" else 256)
    for seed in range(3 if tier == "quick" else 30):
        for log10 in (True, False):
            yield dict(large=True, log10=log10, seed=seed, sigma=(0.3, 2, 0.003)[seed % 3])


AUX = [
    dict(name="b", type="McAux", observed=False, kwargs={"uses_distance": True}),
    dict(name="a", type="McAux", observed=True, secondary=["b"], kwargs={"uses_luminosity": True}),
    dict(name="g", type="NormalAuxSampler", observed=True, params={"mu": 1.0, "tau": 0.5, "sigma": 0.3}),
]


def spec_of(case):
    aux = [dict(a) for a in AUX]
    top = ["a", "g"]
    lum = w.LUM.get(case["lum"])
    if case["lum"] in ("derived", "both"):
        aux += [
            dict(name="f", type="McAux", observed=True),
            dict(name="e", type="McDerived", secondary=["f"], kwargs={"uses_distance": True}),
        ]
        top = ["e"] + top
        lum = w.LUM["pareto"] if case["lum"] == "both" else None
    return dict(spatial=w.SPATIAL[case["spatial"]], lum=lum, aux=aux, top=top, seed=case["seed"])


def run_kernel(case, cov):
    """The noise, over a grid of answers of the random number generator"""
    W = w.World(dict())
    f = np.array([2.5])
    sigma = case["sigma"]
    draw = W.synth.draw_log10_fobs if case["log10"] else W.synth.draw_log_fobs
    base = np.log10(f) if case["log10"] else np.log(f)

    def sample():
        return float((draw(f, sigma, size=1) - base)[0] / sigma)

    res = rng.enumerate_normal(sample, case["grid"])
    cov.step(res.leaves)
    cov.state(("kernel", case["log10"], sigma))
    rng.check_normal(res, "the noise of the observed fluxes")
    # every object has a noise of its own
    f = np.array([1.0, 10.0, 100.0])
    base = np.log10(f) if case["log10"] else np.log(f)
    np.random.seed(3)
    e = np.asarray(draw(f, sigma, size=3)) - base
    check(len(set(np.round(e, 12))) == 3, "objects share their noise")


def run_large(case, cov):
    """The noise of a survey is the one that was enumerated"""
    spec = dict(flux=["McMask", None], seed=case["seed"])
    W = w.World(spec)
    W.selections["flux"].mask = lambda size: np.ones(size, dtype=bool)
    n = 6000
    sigma = case["sigma"]
    pop = W.synth.draw_survey(n_samples=n, flux_sigma=sigma, log10_flux_draw=case["log10"])
    ratio = np.log(w.arr(pop.fluxes) / w.arr(pop.fluxes.latent)) / sigma
    if case["log10"]:
        ratio = ratio / np.log(10)
    cov.step()
    cov.state(("large", case["log10"], case["seed"]))
    check(
        abs(ratio.mean()) < 6 / np.sqrt(n) and abs(ratio.std() - 1) < 6 / np.sqrt(2 * n),
        "observed fluxes do not scatter about the true ones with the requested error",
        mean=ratio.mean(),
        std=ratio.std(),
    )
    check(len(set(np.round(ratio, 9))) > 0.99 * n, "objects share their noise", objects=n)
    l = np.log(w.arr(pop.fluxes.latent))
    c = np.corrcoef(l, ratio)[0, 1]
    check(abs(c) < 6 / np.sqrt(n), "the noise depends on the flux", correlation=c)


def run(case, cov):
    if case.get("kernel"):
        return run_kernel(case, cov)
    if case.get("large"):
        return run_large(case, cov)
    noise = {}
    counts = {}
    for fsel, sigma, log10, norm, prog in itertools.product(
        ("none", "mask", "lower", "soft"), SIGMAS, (True, False), (False, True), (False, True)
    ):
        if prog and (sigma != 0.1 or log10 or case["n"] == 0):
            continue
        if sigma in SIGMAS[3:] and (norm or fsel == "soft" or case["n"] not in (2, 200)):
            continue
        if norm and case["n"] is not None and log10:
            continue
        spec = spec_of(case)
        if fsel == "mask":
            spec["flux"] = ["McMask", None]
        elif fsel == "lower":
            spec["flux"] = ["HardFluxSelection", {"boundary": 1e-3}]
        elif fsel == "soft":
            spec["flux"] = ["SoftFluxSelection", {"boundary": 1e-3, "strength": 5.0}]
        W = w.World(spec)
        if fsel == "mask":
            W.selections["flux"].mask = lambda size: np.arange(size) % 2 == 0
        with w.progress(prog):
            pop = W.synth.draw_survey(
                n_samples=case["n"], flux_sigma=sigma, log10_flux_draw=log10, normalize=norm
            )
        cov.step()
        cov.state((case["spatial"], case["lum"], case["n"], case["seed"], fsel, sigma, log10, norm, prog))
        n = len(np.asarray(pop.distances))
        if case["n"] is not None:
            check(n == case["n"], "the survey does not have the number of objects asked for", n=n)
        else:
            counts.setdefault(norm, set()).add(n)
            check(len(counts[norm]) == 1, "the number of objects depends on selections or errors")
        names = list(W.samplers)
        c = w.columns(pop, names)
        for k, v in c.items():
            if k in ("known_distances", "r_idx", "r_nidx"):
                continue
            check(v.shape == (n,), "%s does not have one entry per object" % k, shape=v.shape, n=n)
        cols = {k: v for k, v in c.items()}
        for k in ("luminosities", "distances", "theta", "phi"):
            check(np.array_equal(cols[k], cols[k + ".latent"]), "%s have a measurement error" % k)
        f, lat = cols["fluxes"], cols["fluxes.latent"]
        for i in range(n):
            t = float(
                np.asarray(W.spatial.transform(np.array([cols["luminosities"][i]]), np.array([cols["distances"][i]])))[0]
            )
            check(
                abs(t - lat[i]) <= 1e-9 * abs(t),
                "the true flux of an object is not the transform of its luminosity and distance",
                object=i,
                flux=lat[i],
                expected=t,
            )
        check(np.array_equal(w.arr(pop.fluxes_latent), lat), "fluxes_latent are wrong")
        check(np.array_equal(w.arr(pop.fluxes_observed), f), "fluxes_observed are wrong")
        check(np.array_equal(w.arr(pop.luminosities_latent), cols["luminosities"]), "luminosities_latent are wrong")
        check(
            np.array_equal(w.arr(pop.dec), 90 - np.rad2deg(cols["theta"])) and np.array_equal(w.arr(pop.ra), np.rad2deg(cols["phi"])),
            "ra and dec are not those of theta and phi",
        )
        noisy = fsel != "none" and sigma is not None
        if noisy:
            check(float(pop.flux_sigma) == sigma, "the reported error is not the one asked for", got=pop.flux_sigma)
            z = np.log(f / lat) / sigma
            if log10:
                z = z / np.log(10)
            if n:
                check(np.all(np.isfinite(z)), "observed fluxes are not positive")
                check(np.all(np.abs(z) > 1e-9), "observed fluxes are not scattered")
                check(n == 1 or len(set(np.round(z, 9))) == n, "objects share their noise")
                check(np.all(np.abs(z) < 7), "observed fluxes are scattered by much more than the requested error", z=z)
            # the same survey with another error or log base has the same
            # standardized noise
            key = (norm, prog)
            if key in noise:
                check(
                    np.allclose(noise[key], z, rtol=1e-6, atol=1e-9),
                    "the scatter is not in proportion to the requested error",
                    sigma=sigma,
                    log10=log10,
                    z=z,
                    expected=noise[key],
                )
            else:
                noise[key] = z
        else:
            check(np.array_equal(f, lat), "observed fluxes differ from the true ones without an error")
            check(float(pop.flux_sigma) == -1, "an error is reported where there is none", got=pop.flux_sigma)
        # the values of the samplers
        for name, s in W.samplers.items():
            check(
                np.array_equal(cols["aux:" + name + ".latent"], w.arr(s.true_values))
                and np.array_equal(cols["aux:" + name], w.arr(s.obs_values)),
                "the survey does not hold the values its samplers drew",
                sampler=name,
            )
        b = w.scripted_true("b", n, {}, distance=cols["distances"])
        check(np.allclose(cols["aux:b.latent"], b, rtol=1e-12), "values of b do not belong to their objects")
        check(np.array_equal(cols["aux:b"], cols["aux:b.latent"]), "latent values are observed")
        a = w.scripted_true("a", n, {"b": (b, b)}, luminosity=cols["luminosities"])
        check(np.allclose(cols["aux:a.latent"], a, rtol=1e-12), "values of a do not belong to their objects")
        check(np.allclose(cols["aux:a"], w.scripted_obs("a", a), rtol=1e-12), "observed values of a are wrong")
        if case["lum"] in ("derived", "both"):
            ft = w.scripted_true("f", n, {})
            e = w.scripted_true("e", n, {"f": (ft, w.scripted_obs("f", ft))}, distance=cols["distances"])
            check(
                np.allclose(cols["luminosities"], 3 * e + 1 + ft, rtol=1e-12),
                "luminosities are not those of the derived luminosity sampler",
            )
        cov.outcome((fsel, sigma, log10, norm, n, case["spatial"], case["lum"]))
        w.LOG.clear()
