"""
P01: an object is detected exactly when every attached selection accepts it.

Alphabet: scripted selections, with every acceptance pattern, on every subset of
the slots (flux, spatial, every sampler of a topology). One synth goes through
all patterns one after the other, so that every survey but the first follows
another one. Oracle: the conjunction of the patterns.
"""
import itertools

import numpy as np

from mc.core import Violation, check
from mc import world as w

LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 sampler topologies x all subsets of slots x all acceptance patterns with (2^n)^slots <= 4096 for n <= 2, <= 512 for n <= 4; patterns of 130, 300 and 1100 objects for every topology, of 70000 for one; flux selections on distances, luminosities and fluxes over several surveys",
    "thorough": "9 sampler topologies x all subsets of slots x all acceptance patterns with (2^n)^slots <= 65536 for n <= 5",
}
ASSUMPTIONS = [
    "selections are driven through the documented extension point (draw sets _selection)",
    "all acceptance patterns for at most 5 objects, some of them for larger surveys",
]
CHUNK = 1


def A(name, secondary=(), observed=True, type="McAux"):
    a = dict(name=name, type=type, secondary=list(secondary))
    if type == "McAux":
        a["observed"] = observed
    return a


TOPOLOGIES = {
    "none": ([], []),
    "one": ([A("a")], ["a"]),
    "secondary": ([A("b"), A("a", ["b"])], ["a"]),
    "chain": ([A("c"), A("b", ["c"], False), A("a", ["b"])], ["a"]),
    "two": ([A("a"), A("d")], ["a", "d"]),
    "diamond": ([A("d"), A("b", ["d"]), A("c", ["d"]), A("a", ["b", "c"])], ["a"]),
    "derived": ([A("f"), A("e", ["f"], type="McDerived"), A("a")], ["e", "a"]),
    "derived chain": (
        [A("g"), A("f", ["g"]), A("e", ["f"], type="McDerived")],
        ["e"],
    ),
    "shared": ([A("s"), A("a", ["s"]), A("d", ["s"])], ["a", "d"]),
}


def slots_of(topo):
    return ["flux", "space"] + [a["name"] for a in TOPOLOGIES[topo][0]]


def cases(tier):
    limit = {
        "quick": {0: 4096, 1: 4096, 2: 4096, 3: 512, 4: 256},
        "thorough": {0: 65536, 1: 65536, 2: 65536, 3: 32768, 4: 4096, 5: 1024},
    }[tier]
    for n, lim in limit.items():
        for topo in TOPOLOGIES:
            slots = slots_of(topo)
            for k in range(len(slots) + 1):
                if (2**n) ** k > lim:
                    continue
                for sub in itertools.combinations(slots, k):
                    for dist in (0, 1):
                        if dist and k > 2:
                            continue
                        yield dict(topo=topo, slots=list(sub), n=n, dist=dist)
    # the number of objects is drawn, and progress bars
    for topo in TOPOLOGIES:
        slots = slots_of(topo)
        for k in range(min(3, len(slots)) + 1):
            for sub in itertools.combinations(slots, k):
                for normalize in (False, True):
                    yield dict(topo=topo, slots=list(sub), n=None, dist=0, normalize=normalize)
    yield dict(topo="chain", slots=["flux", "b"], n=3, dist=0, progress=True)
    # many objects
    for topo in TOPOLOGIES:
        slots = slots_of(topo)
        for n in (130, 300, 1100):
            for sub in [slots[:k] for k in range(len(slots) + 1)] + [slots[k:] for k in range(1, len(slots))]:
                yield dict(topo=topo, slots=list(sub), n=n, dist=n == 300)
        yield dict(topo=topo, slots=list(slots), n=70000, dist=False)
    # what the flux selection acts on
    for n in (1, 2, 3, 5):
        for on in ("use_distance", "use_luminosity", "use_flux"):
            yield dict(topo="secondary", n=n, flux_on=on)
    # one selection object attached to several samplers
    for n in (1, 2, 3):
        for topo in ("secondary", "two", "diamond", "derived", "shared"):
            yield dict(topo=topo, n=n, shared=True)


def large_masks(n):
    """A few acceptance patterns of many objects"""
    i = np.arange(n)
    if n > 5000:
        return [tuple(x.tolist()) for x in (i % 3 != 1, i >= n // 3)]
    return [tuple(x.tolist()) for x in (i % 3 != 1, i >= n // 3, i < n - 2, i < 0)]


def build(case, seed=7):
    aux, top = TOPOLOGIES[case["topo"]]
    aux = [dict(a) for a in aux]
    spec = dict(aux=aux, top=top, seed=seed)
    if any(a["type"] == "McDerived" for a in aux):
        spec["lum"] = None
    for s in case["slots"]:
        if s == "flux":
            spec["flux"] = ["McMask", ()]
        elif s == "space":
            spec["space"] = ["McSpatialMask", ()]
        else:
            for a in aux:
                if a["name"] == s:
                    a["sel"] = ["McMask", ()]
    if case["dist"]:
        spec["dist"] = ["McMask", ()]
    return w.World(spec)


def check_survey(pop, expected, names, cov):
    n = len(expected)
    sel = np.asarray(pop.selection)
    check(sel.dtype == bool and sel.shape == (n,), "the selection is not one boolean per object")
    check(
        tuple(bool(x) for x in sel) == tuple(bool(x) for x in expected),
        "detected objects are not those which every attached selection accepts",
        detected=sel.tolist(),
        expected=[bool(x) for x in expected],
    )
    nd = int(sum(expected))
    check(pop.n_objects == n, "wrong number of objects", got=pop.n_objects, expected=n)
    check(pop.n_detections == nd, "wrong number of detections", got=pop.n_detections, expected=nd)
    check(
        pop.n_non_detections == n - nd,
        "wrong number of non detections",
        got=pop.n_non_detections,
        expected=n - nd,
    )
    check(bool(pop.has_detections) == (nd > 0), "has_detections is wrong")
    e = np.array(expected, dtype=bool)
    quantities = [
        ("luminosities", pop.luminosities),
        ("distances", pop.distances),
        ("fluxes", pop.fluxes),
        ("theta", pop.theta),
        ("phi", pop.phi),
        ("probability", pop.probability),
    ] + [(k, getattr(pop, k)) for k in names]
    for k, v in quantities:
        o, l = w.arr(v), w.arr(v.latent)
        for part, idx in ((v.selected, e), (v.non_selected, ~e)):
            check(
                np.array_equal(w.arr(part), o[idx]) and np.array_equal(w.arr(part.latent), l[idx]),
                "the detected or hidden values of %s are not those of the detected or hidden objects" % k,
            )
    f, lf, d = w.arr(pop.fluxes), w.arr(pop.fluxes.latent), w.arr(pop.distances)
    for k, v, x in (
        ("selected_fluxes_observed", f, e),
        ("selected_fluxes_latent", lf, e),
        ("selected_distances", d, e),
        ("hidden_fluxes_observed", f, ~e),
        ("hidden_fluxes_latent", lf, ~e),
        ("hidden_distances", d, ~e),
    ):
        check(np.array_equal(w.arr(getattr(pop, k)), v[x]), "%s are wrong" % k)
    cov.outcome((tuple(expected), len(names)))


def run_shared(case, cov):
    """One selection object on all samplers accepts each of the samplers' values"""
    aux, top = TOPOLOGIES[case["topo"]]
    names = [a["name"] for a in aux]
    n = case["n"]
    spec = dict(aux=[dict(a) for a in aux], top=top, seed=3)
    if any(a["type"] == "McDerived" for a in aux):
        spec["lum"] = None
    for obs_name in names:
        # a threshold between the values of obs_name
        for k in range(n + 1):
            W = w.World(spec)
            pop0 = W.synth.draw_survey(n_samples=n)
            v = np.sort(w.arr(getattr(pop0, obs_name)))
            bound = v[k] if k < n else v[-1] + 1
            for cls, rule in ((w.popsynth.LowerBound, np.greater_equal), (w.popsynth.UpperBound, np.less_equal)):
                W = w.World(spec)
                s = cls(use_obs_value=True)
                s.boundary = float(bound)
                for x in names:
                    W.samplers[x].set_selection_probability(s)
                for repeat in range(2):
                    pop = W.synth.draw_survey(n_samples=n)
                    cov.step()
                    exp = np.ones(n, dtype=bool)
                    for x in names:
                        exp &= rule(w.arr(getattr(pop, x)), bound)
                    check_survey(pop, tuple(exp), names, cov)


def run_flux(case, cov):
    """The flux selection acts on the fluxes, distances or luminosities of this survey"""
    P = w.popsynth
    n, on = case["n"], case["flux_on"]
    for also in (False, True):
        for cls, rule in ((P.LowerBound, np.greater_equal), (P.UpperBound, np.less_equal)):
            W = w.World(dict(aux=TOPOLOGIES["secondary"][0], top=["a"], seed=3))
            s = cls(**{on: True})
            W.synth.set_flux_selection(s)
            if also:
                W.synth.set_distance_selection(s)
            for bound in (0.05, 0.3, 1.2, 1.5, 1.8, 3.0):
                s.boundary = bound
                for size, sigma in ((n, None), (n + 1, 0.4), (n, 0.4), (n, None)):
                    pop = W.synth.draw_survey(n_samples=size, flux_sigma=sigma)
                    v = dict(use_distance=pop.distances, use_luminosity=pop.luminosities, use_flux=pop.fluxes)[on]
                    cov.step()
                    cov.state(("flux", on, cls.__name__, bound, size, sigma, also))
                    check_survey(pop, tuple(rule(w.arr(v), bound).tolist()), ["a", "b"], cov)
    w.LOG.clear()


def run(case, cov):
    if case.get("flux_on"):
        return run_flux(case, cov)
    if case.get("shared"):
        return run_shared(case, cov)
    names = [a["name"] for a in TOPOLOGIES[case["topo"]][0]]
    W = build(case)
    n = case["n"]
    with w.progress(bool(case.get("progress"))):
        if n is None:
            pats = [(True, False), (False, True, True), (True,), (False,)]
        else:
            pats = list(w.masks(n)) if n <= 10 else large_masks(n)
        combos = itertools.product(pats, repeat=len(case["slots"]))
        if n is not None and n > 10:
            # each slot with each pattern, next to the others with the next patterns
            combos = [tuple(pats[(k + j * (1 + k // 4)) % len(pats)] for j in range(len(case["slots"]))) for k in range(8 if n <= 5000 else 2)]
        for combo in combos:
            for s, p in zip(case["slots"], combo):
                if n is None:
                    W.selections[s].mask = lambda size, p=p: (p * (size // len(p) + 1))[:size]
                else:
                    W.selections[s].mask = p
            if case["dist"]:
                W.selections["dist"].mask = lambda size: np.arange(size) % 2 == 1
            if n is None:
                pop = W.synth.draw_survey(normalize=case.get("normalize", False))
                size = len(np.asarray(pop.distances))
                exp = np.ones(size, dtype=bool)
                for p in combo:
                    exp &= np.array((p * (size // len(p) + 1))[:size], dtype=bool)
                exp = tuple(exp)
            else:
                pop = W.synth.draw_survey(n_samples=n)
                exp = tuple(all(c) for c in zip(*combo)) if combo else (True,) * n
            cov.step()
            cov.state((case["topo"], tuple(case["slots"]), n, combo))
            check_survey(pop, exp, names, cov)
    w.LOG.clear()
