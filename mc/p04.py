"""
P04: built-in selections accept exactly the objects their definition says.

Hard selections: in every slot, on every quantity the slot offers, with every
order type of their bounds relative to the values (below, at, between and above
them). One selection object goes through all bounds. Probabilistic selections:
all answers of the random number generator on a grid, for one and two objects.
Oracle: the closed range, or the stated probability.
"""
import itertools
import math

import numpy as np

from mc.core import check
from mc import rng
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all order types of bounds, all RNG answers on a grid"
BOUNDS = {
    "quick": "7 slots x 4 quantities x 4 hard selections x all order types for n <= 4 objects (with ties; with the closest bounds to a value for n <= 2), galactic latitudes of 300 objects x all bounds; soft and Bernoulli selections: grid of 400 answers for one and 40 x 40 for two objects x 7 probabilities; answers and probabilities down to 1e-13 from zero and one",
    "thorough": "as quick with n <= 7, 3000 latitudes, every spatial distribution, grids of 4000 and 120 x 120",
}
ASSUMPTIONS = [
    "the soft selection is read as the inverse logit of strength x (log10 of the value - log10 of the boundary)",
    "galactic latitudes are compared with the definition of the galactic pole of the Hipparcos catalogue up to 1e-5 degrees",
]
CHUNK = 1

SLOTS = {
    "flux": ("use_flux",),
    "dist": ("use_distance", "use_luminosity", "use_flux"),
    "aux": ("use_obs_value", "use_distance", "use_luminosity"),
    "latent aux": ("use_obs_value", "use_distance", "use_luminosity"),
    "secondary": ("use_obs_value", "use_distance", "use_luminosity"),
    "deep secondary": ("use_obs_value", "use_distance", "use_luminosity"),
    "derived": ("use_obs_value", "use_distance"),
    "derived secondary": ("use_obs_value", "use_distance"),
}


def cases(tier):
    top = 4 if tier == "quick" else 7
    for slot, uses in SLOTS.items():
        for use in uses:
            for kind in ("lower", "upper", "box"):
                for n in range(top + 1):
                    yield dict(slot=slot, use=use, kind=kind, n=n)
                yield dict(slot=slot, use=use, kind=kind, n=3, ties=True)
    for n in range(top + 1):
        yield dict(slot="flux", use="use_flux", kind="hardflux", n=n)
        yield dict(slot="flux", use="use_flux", kind="hardflux", n=n, sigma=0.3)
        yield dict(slot="space", use="use_distance", kind="distance", n=n)
        yield dict(slot="dist", use="use_flux", kind="box", n=n, sigma=0.3)
    for sp in w.SPATIAL:
        yield dict(slot="flux", use="use_flux", kind="hardflux", n=3, spatial=sp)
        yield dict(slot="space", use="use_distance", kind="distance", n=3, spatial=sp)
        yield dict(slot="aux", use="use_distance", kind="box", n=3, spatial=sp)
        yield dict(slot="dist", use="use_distance", kind="box", n=3, spatial=sp)
        yield dict(plane=True, spatial=sp, n=60 if tier == "quick" else 600)
    yield dict(plane=True, spatial="const", n=300 if tier == "quick" else 3000)
    g1, g2 = (400, 40) if tier == "quick" else (4000, 120)
    for p in (0.0, 0.01, 0.2, 0.5, 0.7, 0.99, 1.0):
        for prog in (False, True):
            yield dict(kernel="bernoulli", p=p, progress=prog, grid=g1, n=1)
            yield dict(kernel="bernoulli", p=p, progress=prog, grid=g2, n=2)
    for cls in ("SoftSelection", "SoftFluxSelection"):
        for use in ("use_flux", "use_distance", "use_luminosity", "use_obs_value"):
            if cls == "SoftFluxSelection" and use != "use_flux":
                continue
            for strength in (0.0, 1.0, 7.5):
                for prog in (False, True):
                    yield dict(kernel=cls, use=use, strength=strength, progress=prog, grid=g1, n=1)
                    yield dict(kernel=cls, use=use, strength=strength, progress=prog, grid=g2, n=2)
    for cls in ("BernoulliSelection", "SoftSelection", "SoftFluxSelection"):
        for n in (1, 2, 300):
            for prog in (False, True):
                yield dict(rare=cls, n=n, progress=prog)
    for slot in list(SLOTS):
        for prog in (False, True):
            yield dict(fraction=slot, progress=prog)


def spec_of(case):
    slot = case["slot"]
    spec = dict(seed=21, spatial=w.SPATIAL[case.get("spatial", "const")], lum=w.LUM["pareto"])
    if case.get("ties"):
        spec["lum"] = w.LUM["delta"]
    spec["aux"] = [
        dict(name="c", type="NormalAuxSampler", params={"mu": 30.0, "tau": 2.0, "sigma": 0.9}),
        dict(name="b", type="McAux", secondary=["c"], observed=True),
        dict(name="a", type="NormalAuxSampler", secondary=["b"], observed=slot != "latent aux", params={"mu": 30.0, "tau": 2.0, "sigma": 0.9}),
    ]
    spec["top"] = ["a"]
    if slot.startswith("derived"):
        spec["lum"] = None
        spec["aux"] += [
            dict(name="f", type="NormalAuxSampler", params={"mu": 30.0, "tau": 1.0, "sigma": 0.4}),
            dict(name="e", type="McCompute", secondary=["f"]),
        ]
        spec["top"] = ["e", "a"]
    return spec


TARGET = {
    "aux": "a",
    "latent aux": "a",
    "secondary": "b",
    "deep secondary": "c",
    "derived": "e",
    "derived secondary": "f",
}


def attach(W, slot, s):
    if slot == "flux":
        W.synth.set_flux_selection(s)
    elif slot == "dist":
        W.synth.set_distance_selection(s)
    elif slot == "space":
        W.synth.add_spatial_selector(s)
    else:
        W.samplers[TARGET[slot]].set_selection_probability(s)


def values(pop, slot, use):
    if use == "use_flux":
        return w.arr(pop.fluxes)
    if use == "use_distance":
        return w.arr(pop.distances)
    if use == "use_luminosity":
        return w.arr(pop.luminosities)
    return w.arr(getattr(pop, TARGET[slot]))


def bounds_of(v):
    pts = sorted(set(v.tolist()))
    if not pts:
        return [1.0]
    if len(pts) <= 2:
        # the closest ones to a value too
        near = [np.nextafter(x, s) for x in pts for s in (-np.inf, np.inf)]
        return sorted(set(near + pts + [pts[0] * 0.5, pts[-1] * 2, (pts[0] + pts[-1]) / 2]))
    out = [pts[0] - abs(pts[0]) * 0.5]
    for a, b in zip(pts, pts[1:] + [pts[-1] + abs(pts[-1])]):
        out += [a, (a + b) / 2]
    return out


def run(case, cov):
    if case.get("plane"):
        return run_plane(case, cov)
    if case.get("kernel"):
        return run_kernel(case, cov)
    if case.get("fraction"):
        return run_fraction(case, cov)
    if case.get("rare"):
        return run_rare(case, cov)
    P = w.popsynth
    slot, use, kind, n = (case[k] for k in ("slot", "use", "kind", "n"))
    kw = {use: True}
    s = {
        "lower": lambda: P.LowerBound(**kw),
        "upper": lambda: P.UpperBound(**kw),
        "box": lambda: P.BoxSelection(**kw),
        "hardflux": P.HardFluxSelection,
        "distance": P.DistanceSelection,
    }[kind]()
    W = w.World(spec_of(case))
    sigma = case.get("sigma")
    if sigma and slot != "flux":
        # the error needs some flux selection
        f = P.LowerBound(use_flux=True)
        f.boundary = 0.0
        W.synth.set_flux_selection(f)
    if slot == "dist":
        # only every second object is detected
        W.synth.add_spatial_selector(w.McSpatialMask(mask=lambda size: np.arange(size) % 2 == 0))
    # what the selection will see, from a survey in which it accepts everything
    attach(W, slot, s)
    setattr_all(s, kind, -1e300, 1e300)
    v = values(W.synth.draw_survey(n_samples=n, flux_sigma=sigma), slot, use)
    if slot == "dist":
        v = v[::2]
    bs = bounds_of(v)
    if kind == "distance":
        bs = [b for b in bs if b >= 0]
    pairs = list(itertools.product(bs, bs)) if kind in ("box", "distance") else [(b, b) for b in bs]
    for lo, hi in pairs:
        if kind in ("lower", "hardflux"):
            exp = [x >= lo for x in v]
        elif kind == "upper":
            exp = [x <= hi for x in v]
        else:
            exp = [lo <= x <= hi for x in v]
        setattr_all(s, kind, lo, hi)
        pop = W.synth.draw_survey(n_samples=n, flux_sigma=sigma)
        cov.step()
        cov.state((slot, use, kind, n, case.get("ties"), case.get("spatial"), bs.index(lo), bs.index(hi)))
        got = values(pop, slot, use)
        if slot == "dist":
            got = got[::2]
            acc = [bool(x in set(w.arr(pop.known_distances).tolist())) for x in w.arr(pop.distances)[::2]]
        else:
            acc = w.arr(pop.selection).tolist()
        check(np.array_equal(got, v), "the values depend on a hard selection")
        check(acc == exp, "a selection does not accept exactly what its definition says", values=v, lower=lo, upper=hi, accepted=acc, expected=exp)
        cov.outcome((slot, use, kind, tuple(exp)))
    # an integer bound is as good
    if kind in ("lower", "upper", "hardflux") and n:
        k = int(round(float(np.median(v))))
        setattr_all(s, kind, k, k)
        pop = W.synth.draw_survey(n_samples=n, flux_sigma=sigma)
        if slot != "dist":
            exp = [(x <= k) if kind == "upper" else (x >= k) for x in v]
            check(w.arr(pop.selection).tolist() == exp, "an integer boundary is not respected", boundary=k, values=v)


def setattr_all(s, kind, lo, hi):
    if kind == "box":
        s.vmin, s.vmax = lo, hi
    elif kind == "distance":
        s.min_distance, s.max_distance = max(lo, 0.0), hi
    elif kind == "upper":
        s.boundary = hi
    else:
        s.boundary = lo


def galactic_latitude(ra, dec):
    """From the galactic pole in ICRS coordinates"""
    a0, d0 = np.deg2rad(192.85948), np.deg2rad(27.12825)
    a, d = np.deg2rad(ra), np.deg2rad(dec)
    return np.rad2deg(np.arcsin(np.sin(d) * np.sin(d0) + np.cos(d) * np.cos(d0) * np.cos(a - a0)))


def run_plane(case, cov):
    P = w.popsynth
    n = case["n"]
    W = w.World(dict(spatial=w.SPATIAL[case["spatial"]], seed=4))
    s = P.GalacticPlaneSelection()
    W.synth.add_spatial_selector(s)
    s.b_limit = 0
    pop = W.synth.draw_survey(n_samples=n)
    check(w.arr(pop.selection).all(), "a limit of zero hides objects")
    b = galactic_latitude(w.arr(pop.ra), w.arr(pop.dec))
    tol = 1e-5
    cuts = sorted(np.abs(b).tolist())
    limits = [(x + y) / 2 for x, y in zip(cuts, cuts[1:])] + [90.0]
    stride = max(1, len(limits) // 120)
    near = [x + d for x in cuts[:: max(1, len(cuts) // 12)] for d in (-5e-5, 5e-5, -5e-4, 5e-4) if 0 <= x + d <= 90]
    for lim in limits[::stride] + near + [5.0, 45]:
        s.b_limit = lim
        pop = W.synth.draw_survey(n_samples=n)
        cov.step()
        cov.state((case["spatial"], n, lim))
        ab = np.abs(b)
        clear = np.abs(ab - lim) > tol
        got = w.arr(pop.selection)
        exp = ab >= lim
        check(np.array_equal(got[clear], exp[clear]), "the galactic plane selection does not accept exactly the objects off the plane", limit=lim, latitudes=b, accepted=got)
        cov.outcome((n, int(exp.sum())))


def soft_probability(v, boundary, strength):
    x = strength * (math.log10(v) - math.log10(boundary))
    return 1.0 / (1.0 + math.exp(-x))


def run_kernel(case, cov):
    """All answers of the random number generator on a grid"""
    P = w.popsynth
    n, g = case["n"], case["grid"]
    vals = None
    if case["kernel"] == "bernoulli":
        configs = [[case["p"]] * n]
        setups = [None]
    else:
        setups = []
        configs = []
        for boundary in (1.0, 20.0):
            for base in (0.1, 1.0, 9.0, 300.0):
                v = [base * 3.0**i for i in range(n)]
                setups.append((boundary, v))
                configs.append([soft_probability(x, boundary, case["strength"]) for x in v])
        if n == 2:
            setups, configs = setups[::3], configs[::3]
    for st, probs in zip(setups, configs):
        if case["kernel"] == "bernoulli":
            s = P.BernoulliSelection()
            s.probability = case["p"]
        else:
            c = getattr(P, case["kernel"])
            s = c() if case["kernel"] == "SoftFluxSelection" else c(**{case["use"]: True})
            s.boundary, s.strength = st[0], case["strength"]
            dummy = np.full(n, 1e-7)
            arr = np.array(st[1])
            # only the designated quantity counts
            for name, use in (("observed_flux", "use_flux"), ("distance", "use_distance"), ("luminosity", "use_luminosity"), ("observed_value", "use_obs_value")):
                getattr(s, "set_" + name)(arr if use == case["use"] else dummy)

        def sample():
            s.reset()
            s.select(n)
            return int(sum(int(x) << i for i, x in enumerate(s.selection)))

        with w.progress(case["progress"]):
            res = rng.tree(sample, g, n)
        cov.step(res.leaves)
        cov.state((case["kernel"], case.get("use"), case.get("p"), case.get("strength"), st and (st[0], tuple(st[1])), n, case["progress"]))
        check(res.cut < 1e-9, "more random numbers are consumed than objects are selected", cut=res.cut)
        tot = sum(res.weights)
        for i in range(n):
            p = sum(wt for v, wt in zip(res.values, res.weights) if (int(v) >> i) & 1) / tot
            exact = probs[i] in (0.0, 1.0)
            check(abs(p - probs[i]) <= (0 if exact else 1.01 / g) + 1e-12, "an object is not accepted with the stated probability", probability=p, expected=probs[i])
        if n == 2:
            p = sum(wt for v, wt in zip(res.values, res.weights) if int(v) == 3) / tot
            check(abs(p - probs[0] * probs[1]) <= 2.1 / g, "objects are not accepted independently of each other", probability=p, expected=probs[0] * probs[1])
        cov.outcome((tuple(np.round(probs, 6)), n))


def run_fraction(case, cov):
    """The probabilistic selections in each slot, in a large survey"""
    P = w.popsynth
    slot = case["fraction"]
    n = 4000
    for use in SLOTS[slot] + ("bernoulli",):
        W = w.World(spec_of(dict(slot=slot)))
        if use == "bernoulli":
            s = P.BernoulliSelection()
            s.probability = 0.3
        else:
            s = P.SoftSelection(**{use: True})
            probe = W.synth.draw_survey(n_samples=n)
            v = values(probe, slot, use)
            s.boundary = float(np.median(v[v > 0]))
            s.strength = 6.0
        attach(W, slot, s)
        if slot == "dist":
            W.synth.add_spatial_selector(w.McSpatialMask(mask=lambda size: np.arange(size) % 2 == 0))
        with w.progress(case["progress"]):
            pop = W.synth.draw_survey(n_samples=n)
        cov.step()
        cov.state((slot, use, case["progress"]))
        m = np.ones(n, dtype=bool)
        acc = w.arr(pop.selection)
        if slot == "dist":
            m = np.arange(n) % 2 == 0
            check(np.array_equal(acc, m), "the distance selection changed what is detected")
            acc = np.isin(w.arr(pop.distances), w.arr(pop.known_distances))
        if use == "bernoulli":
            p = np.full(n, 0.3)
        else:
            v = values(pop, slot, use)
            ok = v > 0
            m = m & ok
            p = np.full(n, 0.5)
            p[ok] = 1 / (1 + np.exp(-6.0 * np.log10(v[ok] / s.boundary)))
        # in total and in the parts where the probability is low and high
        order = np.argsort(p[m], kind="stable")
        for part in [order] + np.array_split(order, 4):
            pp, aa = p[m][part], acc[m][part]
            z = (aa.sum() - pp.sum()) / np.sqrt((pp * (1 - pp)).sum())
            check(abs(z) < 5.5, "objects are not accepted with the stated probability", deviation_in_sigmas=z, slot=slot, use=use)
        cov.outcome((slot, use, int(acc.sum())))


NEAR = (1e-13, 3e-11, 1e-9, 1e-7, 2e-5, 9e-4, 1.1e-3, 0.0099, 0.011, 0.045, 0.11, 0.3, 0.5)


def run_rare(case, cov):
    """
    Probabilities near zero and one, with answers near zero and one: an object is
    accepted for the answers below its probability, or for those above one minus it
    """
    P = w.popsynth
    n = case["n"]
    s = getattr(P, case["rare"])(**({} if case["rare"] != "SoftSelection" else dict(use_obs_value=True)))
    answers = sorted(set(NEAR) | {1 - x for x in NEAR})
    for p in sorted(set(x * 1.7 for x in NEAR[:-1]) | {1 - x * 1.7 for x in NEAR[:-1]} | {0.0, 1.0, 1e-40, 0.4}):
        if case["rare"] == "BernoulliSelection":
            if p == 1e-40:
                continue
            s.probability = p
        else:
            # a value this far from the boundary
            s.strength, s.boundary = 30.0, 2.0
            x = -400 * 30.0 if p == 0.0 else 400 * 30.0 if p == 1.0 else math.log(p) - math.log1p(-p)
            # a probability far from one half, with more digits than 1 - p has
            value = np.full(n, 2.0 * 10 ** np.clip(x / 30.0, -290, 290))
            s.set_observed_flux(value)
            s.set_observed_value(value)
        law = []
        for u in answers:
            rng.script([u] * min(300, n + 4))
            s.reset()
            with w.progress(case["progress"]):
                s.select(n)
            got = w.arr(s.selection)
            check(got.shape == (n,) and got.dtype == bool, "a selection does not say for each object whether it is accepted", got=got)
            cov.step()
            if rng.consumed() not in (0, n):
                cov.note("not one answer for each object")
                return
            check(bool((got == got[0]).all()), "objects with the same probability and the same answer are not treated alike", probability=p, answer=u)
            law.append(bool(got[0]))
        low = [u < p for u in answers]
        high = [u > 1 - p for u in answers]
        check(law in (low, high), "an object is not accepted with the stated probability", probability=p, answers=answers, accepted=law)
        cov.state((case["rare"], n, case["progress"], p))
        cov.outcome((p, tuple(law)))
