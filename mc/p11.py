"""
P11: sub-populations hold exactly the observed or the hidden objects.

Every detection pattern times every distance pattern of n objects, for the
observed and the hidden sub-population and chains of them up to a depth. Oracle:
the rows of the parent.
"""
import itertools

import numpy as np

from mc.core import check
from mc import p03
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all detection x distance patterns, all chains of sub-populations"
BOUNDS = {
    "quick": "all detection patterns x all distance patterns for n <= 4 objects x all chains of observed/hidden of depth <= 3, also after loading from a file; 9 spatial distributions and 5 luminosity sources; patterns of 130, 300 and 100000 objects; quantities named like properties of the population",
    "thorough": "as quick with n <= 6 objects, chains of depth <= 5",
}
ASSUMPTIONS = ["detection is brought about by the flux selection"]
CHUNK = 1


def cases(tier):
    top, depth = (4, 3) if tier == "quick" else (6, 5)
    for n in range(top + 1):
        for sigma in (None, 0.3):
            yield dict(n=n, sigma=sigma, depth=depth if n < top else depth - 1)
    for sp in w.SPATIAL:
        for lum in ("pareto", "delta", "derived"):
            yield dict(n=3, sigma=0.2, depth=2, spatial=sp, lum=lum, few=True)
    for n in (0, 1, 2, 3):
        yield dict(n=n, sigma=0.2, depth=2, file=True, few=True)
    for n in (130, 300):
        for file in (False, True):
            yield dict(n=n, sigma=0.2, depth=2, file=file, few=True)
    yield dict(n=100000, sigma=0.2, depth=1, few=True)
    yield dict(n=2, sigma=0.2, depth=2, aux="none")
    for n in (0, 3):
        yield dict(n=n, sigma=0.2, depth=2, odd=True)
    yield dict(n=3, sigma=None, depth=2, aux="none", model=True)
    yield dict(n=3, sigma=None, depth=2, nodist=True)
    for n in (0, 1, 3, 4):
        for names in (("dec",), ("ra", "a", "dec"), ("n_objects", "truth"), ("known_distances", "flux_sigma", "name")):
            yield dict(kind="names", n=n, names=list(names))


AUX = [
    dict(name="b", type="McAux", observed=True),
    dict(name="a", type="McAux", observed=True, secondary=["b"]),
    dict(name="h", type="McAux", observed=False),
    dict(name="g", type="NormalAuxSampler", observed=True, params={"mu": 1.0, "tau": 0.5, "sigma": 0.3}),
]

# other names for them
ODD = {"b": "items", "a": "a b", "h": "1", "g": "\u03b1"}


def build(case):
    spec = dict(seed=9, flux=["McMask", ()], dist=["McMask", ()], model_spaces=[["fg", 1.0, 10.0, True]])
    if case.get("nodist"):
        del spec["dist"]
    if case.get("spatial"):
        spec["spatial"] = w.SPATIAL[case["spatial"]]
    if case.get("aux") != "none":
        spec["aux"] = [dict(a) for a in AUX]
        spec["top"] = ["a", "h", "g"]
    if case.get("odd"):
        spec["aux"] = [dict(a, name=ODD[a["name"]], secondary=[ODD[k] for k in a.get("secondary", [])]) for a in spec["aux"]]
        spec["top"] = [ODD[k] for k in spec["top"]]
    if case.get("lum") == "derived":
        spec["lum"] = None
        spec["aux"] = spec["aux"] + [dict(name="e", type="McDerived")]
        spec["top"] = spec["top"] + ["e"]
    elif case.get("lum"):
        spec["lum"] = w.LUM[case["lum"]]
    return w.World(spec)


COLS = ("luminosities", "distances", "fluxes", "theta", "phi", "probability")


def rows(pop, names):
    """The rows of a population: observed and true value of every quantity"""
    cols = [getattr(pop, k) for k in COLS] + [getattr(pop, k) for k in names]
    n = len(w.arr(pop.selection))
    for c in cols:
        check(len(c) == n and len(c.latent) == n, "a quantity does not have one entry per object")
    pairs = [list(zip(w.arr(c).astype(float).tolist(), w.arr(c.latent).astype(float).tolist())) for c in cols]
    return list(zip(*pairs))


def description(pop):
    st = pop.to_stan_data()
    return dict(
        truth=w.plain(pop.truth),
        lum=w.plain(pop.luminosity_parameters),
        space=w.plain(pop.spatial_parameters),
        graph=w.graph_key(pop.graph),
        synth=w.plain(pop.pop_synth),
        sigma=float(pop.flux_sigma),
        r_max=float(st["r_max"]),
        z_max=float(st["z_max"]),
        n_model=int(st["N_model"]),
        model={k: w._bytes(st[k]) for k in ("fg",) if k in st},
    )


def known_of(pop):
    st = pop.to_stan_data()
    return (
        [float(x) for x in w.arr(pop.known_distances)],
        [int(x) for x in np.asarray(st["r_idx"]) - 1],
        [int(x) for x in np.asarray(st["r_nidx"]) - 1],
    )


def check_sub(parent, sub, observed, names):
    sel = w.arr(parent.selection).astype(bool)
    keep = sel if observed else ~sel
    pr, sr = rows(parent, names), rows(sub, names)
    exp = [r for r, k in zip(pr, keep) if k]
    what = "observed" if observed else "hidden"
    check(sr == exp, "the %s sub-population does not hold the %s objects in order" % (what, what), got=sr, expected=exp)
    n = int(keep.sum())
    check(
        (sub.n_objects, sub.n_detections, sub.n_non_detections) == (n, n, 0),
        "not all objects of a sub-population are counted as detected",
        got=(sub.n_objects, sub.n_detections, sub.n_non_detections),
    )
    s = np.asarray(sub.selection)
    check(s.dtype == bool and s.shape == (n,) and s.all(), "the selection of a sub-population is not all true")
    for k in COLS + tuple(names):
        v = getattr(sub, k)
        check(len(v.selected) == n and len(v.non_selected) == 0, "a quantity of a sub-population has hidden entries", quantity=k)
    check(bool(sub.has_detections) == (n > 0), "has_detections is wrong")
    a, b = description(parent), description(sub)
    for k in a:
        check(a[k] == b[k], "the sub-population has another %s" % k, got=b[k], expected=a[k])
    st = sub.to_stan_data()
    check(st["N"] == n, "exported number of objects is wrong")
    for k in names:
        check(np.array_equal(w.arr(st[k + "_obs"]), w.arr(getattr(sub, k))), "exported auxiliary values of a sub-population are wrong", quantity=k)
    kd, ki, ku = known_of(sub)
    if observed:
        check((kd, ki, ku) == known_of(parent), "known distances of the observed sub-population are not those of the population", got=(kd, ki, ku), expected=known_of(parent))
    else:
        check(kd == [] and ki == [] and ku == list(range(n)), "a distance of a hidden object is known", got=(kd, ki, ku))


def named(case, cov):
    """Auxiliary quantities that are called like a property of the population"""
    n = case["n"]
    spec = dict(
        seed=9,
        flux=["McMask", ()],
        aux=[dict(name=k, type="NormalAuxSampler", observed=True, params={"mu": 3.0, "tau": 1.0, "sigma": 0.5}) for k in case["names"]],
        top=case["names"],
    )
    W = w.World(spec)
    for det in w.masks(n):
        W.selections["flux"].mask = det
        pop = W.synth.draw_survey(n_samples=n, flux_sigma=0.1)
        pop.writeto("p.h5")
        sel = np.array(det, dtype=bool)
        for parent in (pop, w.popsynth.Population.from_file("p.h5")):
            for observed in (True, False):
                keep = sel if observed else ~sel
                sub = parent.to_sub_population(observed=observed)
                sub.writeto("s.h5")
                for s in (sub, w.popsynth.Population.from_file("s.h5")):
                    for k in case["names"]:
                        o = W.samplers[k]
                        # exported are the observed values of detected objects
                        got = w.arr(s.to_stan_data()[k + "_obs"])
                        e = w.arr(o.obs_values)[keep]
                        check(np.array_equal(got, e), "values of an auxiliary quantity of a sub-population are not those of its objects", quantity=k, got=got, expected=e, observed=observed)
                        got = w.arr(s.to_stan_data()[k + "_true"]) if k + "_true" in s.to_stan_data() else w.arr(o.true_values)[keep]
                        check(np.array_equal(got, w.arr(o.true_values)[keep]), "true values of an auxiliary quantity of a sub-population are not those of its objects", quantity=k)
                    cov.step()
        cov.state((n, det, tuple(case["names"])))


def run(case, cov):
    if case.get("kind") == "names":
        return named(case, cov)
    W = build(case)
    names = list(W.samplers)
    n = case["n"]
    pats = list(w.masks(n)) if n <= 10 else p03.large_masks(n)
    for det in pats:
        W.selections["flux"].mask = det
        ks = list(w.masks(sum(det))) if n <= 10 else p03.large_masks(sum(det))
        if case.get("nodist"):
            ks = [None]
        elif case.get("few") and len(ks) > 3:
            ks = [ks[0], ks[1], ks[-1]]
        for known in ks:
            if known is not None:
                W.selections["dist"].mask = known
            pop = W.synth.draw_survey(n_samples=n, flux_sigma=case["sigma"])
            if case.get("file"):
                pop.writeto("p.h5")
                pop = w.popsynth.Population.from_file("p.h5")
            walk(pop, case["depth"], names, cov)
            cov.state((n, det, known))
            cov.outcome((n, det, known, case["sigma"], case.get("spatial"), case.get("lum")))


def walk(pop, depth, names, cov):
    if depth == 0:
        return
    before = w.snapshot(pop, names)
    subs = []
    for observed in (True, False):
        sub = pop.to_sub_population(observed=observed)
        cov.step()
        check_sub(pop, sub, observed, names)
        subs.append((sub, w.snapshot(sub, names)))
        if observed:
            w.same_survey(
                w.snapshot(sub, names), w.snapshot(pop.to_sub_population(), names), "the observed sub-population is not the default"
            )
            again = sub.to_sub_population(observed=True)
            w.same_survey(
                w.snapshot(sub, names),
                w.snapshot(again, names),
                "taking the observed sub-population again gives something else",
            )
        walk(sub, depth - 1, names, cov)
    w.same_survey(before, w.snapshot(pop, names), "taking sub-populations changed the population")
    for s, b in subs:
        w.same_survey(b, w.snapshot(s, names), "a sub-population changed")
    # doing something to a sub-population does not reach the population
    for s, _ in subs:
        s.distances.__imul__(1.0)
        for k in COLS + tuple(names):
            v = getattr(s, k)
            v += 1.0
    w.same_survey(before, w.snapshot(pop, names), "changing a sub-population changed the population")
