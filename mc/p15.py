"""
P15: recorded draw probabilities are the densities at the drawn values.

Every combination of spatial distribution, luminosity source, normalization,
auxiliary samplers that report a probability (in different places of different
graphs, selected or not), and all sequences of drawing modes up to a depth on one
synth. Oracle: the product computed object by object, with scalar calls of the
density functions of a fresh distribution whose normalization is one.
"""
import itertools

import numpy as np

import popsynth
from popsynth import SpatialDistribution
from mc.core import check
from mc import space
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all configurations and sequences of draws up to a depth against an independent computation"
BOUNDS = {
    "quick": "10 spatial distributions (with maximum distances from 0.003 to 2e4) x (7 luminosity functions + derived) x 12 sampler configurations x all single draws, all sequences of 2 of 7 ways of drawing with changed normalizations for 3 sampler and luminosity configurations; n in 0..4 and drawn n; surveys of 150 objects",
    "thorough": "the same with 8 seeds, and all sequences of 3 of 7 ways of drawing for 3 sampler configurations",
}
ASSUMPTIONS = [
    "the densities themselves are those of the methods dNdV, differential_volume, time_adjustment and phi, which are compared to their formulas in P19 and P22",
    "a selection that is an explicitly attached UnitySelection counts as none",
    "the distances of the spiral galaxy are those before its perturbation; it is explored with the sky positions of the other distributions",
]
CHUNK = 4

NORMS = {"const": "Lambda", "zpow": "Lambda", "sfr": "r0", "sfr-steady": "r0", "zpcosmo": "Lambda", "zpcosmo-steady": "Lambda", "uniform": "r0"}


class McSpiral(popsynth.distributions.SpiralGalaxyDistribution):
    """The spiral galaxy without the perturbation of the distances"""

    _distribution_name = "McSpiral"

    draw_sky_positions = SpatialDistribution.draw_sky_positions


class McProb(w.McAux):
    """A sampler that reports a probability"""

    _auxiliary_sampler_name = "McProb"

    @property
    def probability(self):
        return density(self.name, self.true_values)


class McDerivedProb(w.McDerived):
    _auxiliary_sampler_name = "McDerivedProb"

    @property
    def probability(self):
        return density(self.name, self.true_values)


def density(name, true):
    return 0.5 + 0.25 * np.sin(np.asarray(true, float) + w.code(name))


SOME = ["McMask", "half"]
NONE = ["McMask", "none"]


def half(n):
    return np.arange(n) % 2 == 0


def none(n):
    return np.zeros(n, bool)


def va(sel=None, angle=60.0):
    return dict(name="va", type="ViewingAngleSampler", params={"max_angle": angle}, sel=sel)


def prob(name, sel=None, secondary=(), **k):
    return dict(name=name, type="McProb", sel=sel, secondary=list(secondary), **k)


def aux(name, sel=None, secondary=(), **k):
    return dict(name=name, type="McAux", sel=sel, secondary=list(secondary), **k)


# name -> (samplers, attached ones)
CONFIGS = {
    "none": ([], []),
    "angle": ([va()], ["va"]),
    "angle selected": ([va(SOME)], ["va"]),
    "nothing selected": ([va(NONE), prob("p", SOME)], ["va", "p"]),
    "one of two": ([prob("p", SOME), prob("q")], ["p", "q"]),
    "two": ([prob("p", SOME), prob("q", SOME)], ["q", "p"]),
    "plain selected": ([aux("p", SOME), prob("q", SOME)], ["p", "q"]),
    "below": ([prob("p", SOME), aux("q", None, ["p"])], ["q"]),
    "two below": ([prob("p", SOME), prob("r", SOME, ["p"]), aux("q", SOME, ["r"])], ["q"]),
    "shared": ([prob("p", SOME), aux("q", SOME, ["p"]), prob("r", SOME, ["p"])], ["q", "r"]),
    "shared twice": ([prob("p", SOME), aux("q", None, ["p"]), aux("r", None, ["p"]), aux("s", None, ["q", "r"])], ["s"]),
    "angle below": ([va(SOME, 120.0), prob("q", SOME, ["va"], observed=False)], ["q"]),
}

DRAWS = {
    "plain": {},
    "normalized": {"normalize": True},
    "4": {"n_samples": 4},
    "3 normalized": {"n_samples": 3, "normalize": True},
    "0": {"n_samples": 0},
    "noise": {"n_samples": 2, "flux_sigma": 0.2},
    "many": {"n_samples": 150},
}

SPATIAL = dict(w.SPATIAL, mcspiral=["McSpiral", w.SPATIAL["spiral"][1]])


# other maximum distances
R_MAX = (0.003, 7.3, 150.0, 2e4)


def cases(tier):
    full = tier == "thorough"
    for sp in SPATIAL:
        for r in R_MAX:
            if r > 500 and sp not in ("const", "zpow", "flat") or sp.endswith("spiral") and r > 10:
                continue
            for lu in ("pareto", "bpl", "derived") if full else ("pareto",):
                yield dict(spatial=sp, lum=lu, config="angle selected", norms=[0.5, 3.0] if sp in NORMS else [1.0], depth=1, seed=11, r_max=r)
    seeds = range(11, 19) if full else [11]
    for seed in seeds:
        for sp in SPATIAL:
            for lu in list(w.LUM) + ["derived"]:
                for c in CONFIGS:
                    yield dict(spatial=sp, lum=lu, config=c, norms=[1.0], depth=1, seed=seed)
                if full or lu in ("schechter", "derived"):
                    yield dict(spatial=sp, lum=lu, config="two below", norms=[0.5, 3.0] if sp in NORMS else [1.0], depth=2 if not full else 3, seed=seed)
            for c in ("shared", "angle below") if full else ("angle below",):
                yield dict(spatial=sp, lum="pareto", config=c, norms=[0.5, 3.0] if sp in NORMS else [1.0], depth=2 if not full else 3, seed=seed)


def spatial(case):
    cls, p, *rest = SPATIAL[case["spatial"]]
    if "r_max" in case:
        # about as many objects
        name = "SpiralGalaxyDistribution" if cls == "McSpiral" else cls
        rate = (rest[0] if rest else {}).get("is_rate", True)
        p = dict(p, r_max=case["r_max"])
        scale = space.Reference.SCALE[name]
        p[scale] = 5.0 / space.Reference(name, dict(p, **{scale: 1.0}), rate).total()
    return [cls, p, *rest]


def build(case):
    samplers, top = CONFIGS[case["config"]]
    samplers = [dict(a) for a in samplers]
    for a in samplers:
        if a.get("sel") is not None:
            a["sel"] = ["McMask", {"half": half, "none": none}[a["sel"][1]]]
    spec = dict(spatial=spatial(case), aux=samplers, top=list(top), seed=case["seed"])
    spec["lum"] = w.LUM.get(case["lum"])
    if case["lum"] == "derived":
        samplers.append(dict(name="lp", type="McProb", sel=["McMask", half]))
    world = w.World(spec)
    if case["lum"] == "derived":
        d = McDerivedProb("derived", uses_distance=True)
        d.set_secondary_sampler(world.samplers["lp"])
        d.set_selection_probability(w.McMask(mask=half))
        world.synth.add_observed_quantity(d)
    return world


def run(case, cov):
    for seq in itertools.product(DRAWS, repeat=case["depth"]):
        if "r_max" in case and "normalized" in seq:
            # the expected number is then the normalization
            continue
        for norms in itertools.product(case["norms"], repeat=case["depth"]):
            world = build(case)
            for i, (how, norm) in enumerate(zip(seq, norms)):
                if case["spatial"] in NORMS and (case["norms"] != [1.0]):
                    setattr(world.spatial, NORMS[case["spatial"]], norm * spatial(case)[1][NORMS[case["spatial"]]])
                pop = world.synth.draw_survey(**DRAWS[how])
                cov.step()
                if i == case["depth"] - 1:
                    observe(case, world, pop, DRAWS[how].get("normalize", False), cov)
            cov.state((case["spatial"], case["lum"], case["config"], norms, seq))


def near(x, y, tol=1e-6):
    return abs(x - y) <= tol * abs(y) + 1e-300


def observe(case, world, pop, normalized, cov):
    fresh = w.make(*spatial(case))
    if case["spatial"] in NORMS:
        setattr(fresh, NORMS[case["spatial"]], 1.0)
    f = lambda r: float(fresh.dNdV(r)) * float(fresh.differential_volume(r)) / float(fresh.time_adjustment(r))
    total = 1.0
    if normalized:
        key = case["spatial"], fresh.r_max
        if key not in INTEGRALS:
            e = np.union1d(np.linspace(0, fresh.r_max, 101), np.geomspace(1e-6 * fresh.r_max, fresh.r_max, 121))
            x, v = np.polynomial.legendre.leggauss(10)
            INTEGRALS[key] = sum(0.5 * (b - a) * sum(v[i] * f(0.5 * ((b - a) * x[i] + a + b)) for i in range(10)) for a, b in zip(e[:-1], e[1:]))
        total = INTEGRALS[key]
    lum = w.make(*w.LUM[case["lum"]]) if case["lum"] != "derived" else None
    p = np.asarray(pop.probability)
    check(p.shape == (pop.n_objects,), "there is not one probability for each object", shape=p.shape, n=pop.n_objects)
    check(p.dtype.kind == "f" and bool(np.isfinite(p).all()) and bool((p >= 0).all()), "a probability is negative or not a number", got=p)
    if case["spatial"] == "spiral":
        return
    n = pop.n_objects
    phi = np.ravel(lum.phi(np.array(pop.luminosities, dtype=float))) if lum is not None and n else None
    for i in range(n):
        e = f(float(np.asarray(pop.distances)[i])) / total
        if lum is not None:
            e *= float(phi[i])
        for name, a in values(case, world, pop):
            s = world.samplers.get(name)
            selected = name == "derived" or name == "lp" or next(x for x in CONFIGS[case["config"]][0] if x["name"] == name).get("sel") is not None
            if not selected:
                continue
            t = float(a[i])
            if name == "va":
                m = np.deg2rad(s.max_angle)
                e *= np.sin(t) / (1 - np.cos(m))
            elif name != "derived" and type(s) is w.McAux:
                continue
            else:
                e *= float(density(name, t))
        check(near(p[i], e), "a recorded probability is not the density at the drawn values", got=p[i], expected=e, row=i, distance=np.asarray(pop.distances)[i], normalized=normalized)
    cov.outcome((case["spatial"], case["lum"], case["config"], normalized, pop.n_objects))


INTEGRALS = {}


def values(case, world, pop):
    """The names and true values of all samplers of a survey"""
    for name in list(world.samplers) + (["derived"] if case["lum"] == "derived" else []):
        yield name, np.asarray(getattr(pop, name).latent)
