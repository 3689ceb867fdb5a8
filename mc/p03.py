"""
P03: known distances are exactly those the distance selection accepted.

Every detection pattern of n objects, brought about in every slot, times every
pattern of the distance selection on the detected objects. One synth goes
through all patterns. Oracle: the patterns applied to the list of objects.
"""
import itertools

import numpy as np

from mc.core import check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all detection x distance patterns"
BOUNDS = {
    "quick": "all detection patterns x all distance patterns for n <= 5 objects (n <= 3 for every slot and sampler topology), 9 spatial distributions, 4 built-in distance selections with every order type of their bounds, with and without measurement errors, drawn n; one selection object as distance selection and as that of fluxes, samplers, secondary or derived samplers; patterns of 130, 300, 1100 and 70000 objects",
    "thorough": "as quick with n <= 8 objects (n <= 5 for every slot)",
}
ASSUMPTIONS = ["distance selections are driven through the documented extension point or are built in"]
CHUNK = 1


def cases(tier):
    top = 5 if tier == "quick" else 8
    low = 3 if tier == "quick" else 5
    for n in range(top + 1):
        yield dict(n=n, by="flux")
    for by in ("space", "aux", "secondary", "derived", "none"):
        for n in range(low + 1):
            yield dict(n=n, by=by)
    for by in ("flux", "space", "aux", "secondary", "derived", "none"):
        for n in (130, 300, 1100):
            yield dict(n=n, by=by)
    yield dict(n=70000, by="flux")
    for sp in w.SPATIAL:
        for n in (0, 1, 2, 3, 300, None):
            yield dict(n=n, by="flux", spatial=sp, few=True)
    for n in range(low + 2):
        for kind in ("box", "lower", "upper"):
            for on in ("use_distance", "use_luminosity", "use_flux"):
                yield dict(n=n, by="flux", builtin=kind, on=on)
                yield dict(n=n, by="flux", builtin=kind, on=on, sigma=0.4)
    for n in range(4):
        for p in (0.0, 1.0):
            yield dict(n=n, by="flux", builtin="bernoulli", p=p)
    for n in range(low + 2):
        for roles in (("flux",), ("a",), ("b",), ("e",), ("flux", "a"), ("flux", "e", "b"), ("a", "b")):
            yield dict(n=n, by="shared", roles=list(roles))
    for n in range(4):
        yield dict(n=n, by="flux", builtin="unity")
        yield dict(n=n, by="flux", builtin="absent")


def spec_of(case):
    spec = dict(seed=5)
    if case.get("spatial"):
        spec["spatial"] = w.SPATIAL[case["spatial"]]
    by = case["by"]
    mask = ["McMask", ()]
    if by == "flux":
        spec["flux"] = mask
    elif by == "space":
        spec["space"] = ["McSpatialMask", ()]
    elif by == "aux":
        spec["aux"] = [dict(name="a", type="McAux", sel=mask)]
        spec["top"] = ["a"]
    elif by == "secondary":
        spec["aux"] = [dict(name="b", type="McAux", sel=mask), dict(name="a", type="McAux", secondary=["b"])]
        spec["top"] = ["a"]
    elif by == "derived":
        spec["aux"] = [dict(name="e", type="McDerived", sel=mask)]
        spec["top"] = ["e"]
        spec["lum"] = None
    return spec


def large_masks(n):
    """A few patterns of many objects"""
    i = np.arange(n)
    if n > 5000:
        return [tuple(x.tolist()) for x in (i % 3 != 1, i >= n // 5)]
    return [tuple(x.tolist()) for x in (i % 3 != 1, i % 2 == 0, i < n - 2, i >= n - 2, i < 0, i >= 0)]


TAG = dict(flux="flux", space="space", aux="a", secondary="b", derived="e")


def check_known(pop, det, known):
    d = w.arr(pop.distances)
    det = np.array(det, dtype=bool)
    known = np.array(known, dtype=bool)
    sel = d[det]
    check(tuple(w.arr(pop.selection)) == tuple(det), "the distance selection changed what is detected", got=pop.selection, expected=det)
    k = w.arr(pop.known_distances)
    check(
        np.array_equal(k, sel[known]),
        "known distances are not those of the detected objects that the distance selection accepted",
        known=k,
        expected=sel[known],
        detected=sel,
    )
    st = pop.to_stan_data()
    ri, rn = np.asarray(st["r_idx"]) - 1, np.asarray(st["r_nidx"]) - 1
    check(np.array_equal(ri, np.where(known)[0]), "indices of known distances are wrong", got=ri, expected=np.where(known)[0])
    check(np.array_equal(rn, np.where(~known)[0]), "indices of unknown distances are wrong", got=rn)
    check(np.array_equal(np.asarray(st["z_idx"]) - 1, ri) and np.array_equal(np.asarray(st["z_nidx"]) - 1, rn), "z_idx and r_idx differ")
    check(np.array_equal(w.arr(pop.distances.selected)[ri], k), "indexing the detected distances does not give the known ones")
    check(np.array_equal(w.arr(pop.selected_distances)[ri], k), "indexing the selected distances does not give the known ones")
    check(st["Nz"] == known.sum() and st["Nnz"] == (~known).sum(), "counts of known distances are wrong", nz=st["Nz"], nnz=st["Nnz"])
    check(np.array_equal(w.arr(st["known_r_obs"]), k) and np.array_equal(w.arr(st["known_z_obs"]), k), "exported known distances are wrong")


def run_shared(case, cov):
    """
    One selection object is the distance selection and that of the fluxes or samplers.
    Where it is used for all objects it has one pattern, and another for the distances
    """
    n, roles = case["n"], case["roles"]
    mask = ["McMask", None]
    aux = [dict(name="b", type="McAux"), dict(name="a", type="McAux", secondary=["b"]), dict(name="e", type="McDerived")]
    W = w.World(dict(seed=5, aux=aux, top=["e", "a"], dist=mask))
    s = W.selections["dist"]
    for r in roles:
        if r == "flux":
            W.synth.set_flux_selection(s)
        else:
            W.samplers[r].set_selection_probability(s)
    P = w.popsynth
    for det in w.masks(n):
        for known in w.masks(sum(det)):
            # every sampler draws its selection from the shared object once or finds
            # what another one drew; the last drawing is that of the distances
            calls = []

            def count(size):
                calls.append(size)
                return np.ones(size, dtype=bool)

            s.mask = count
            W.synth.draw_survey(n_samples=n)
            last = len(calls)
            calls.clear()

            def mask(size):
                calls.append(size)
                return np.array(det if len(calls) < last else known, dtype=bool)

            s.mask = mask
            pop = W.synth.draw_survey(n_samples=n)
            cov.step()
            cov.state(("shared", tuple(roles), det, known))
            check_known(pop, det, known)
            cov.outcome((det, known))
    # built-in selections, one survey after another
    for on in ("use_distance", "use_luminosity", "use_flux"):
        if "flux" not in roles or len(roles) > 1:
            continue
        for cls, rule in ((P.LowerBound, np.greater_equal), (P.UpperBound, np.less_equal)):
            W = w.World(dict(seed=5))
            s = cls(**{on: True})
            W.synth.set_flux_selection(s)
            W.synth.set_distance_selection(s)
            for bound in (0.05, 0.5, 1.2, 1.7, 3.0):
                s.boundary = bound
                for size, errors in ((n, {}), (n + 1, dict(flux_sigma=0.4)), (n, dict(flux_sigma=0.1)), (n, {})):
                    pop = W.synth.draw_survey(n_samples=size, **errors)
                    v = dict(use_distance=pop.distances, use_luminosity=pop.luminosities, use_flux=pop.fluxes)[on]
                    det = rule(w.arr(v), bound)
                    cov.step()
                    cov.state(("shared bounds", on, cls.__name__, bound, size))
                    check_known(pop, tuple(det.tolist()), (True,) * int(det.sum()))
    w.LOG.clear()


def run(case, cov):
    if case["by"] == "shared":
        return run_shared(case, cov)
    if case.get("builtin"):
        return run_builtin(case, cov)
    spec = spec_of(case)
    spec["dist"] = ["McMask", ()]
    n = case["n"]
    W = w.World(spec)
    if n is None:
        pats = [(True, False), (False, True, True), (True,), (False,)]
        for a, b in itertools.product(pats, repeat=2):
            fa = lambda size: np.array((a * (size // len(a) + 1))[:size], dtype=bool)
            fb = lambda size: np.array((b * (size // len(b) + 1))[:size], dtype=bool)
            W.selections["flux"].mask = fa
            W.selections["dist"].mask = fb
            pop = W.synth.draw_survey()
            cov.step()
            det = fa(len(w.arr(pop.distances)))
            check_known(pop, det, fb(int(det.sum())))
            cov.outcome((len(det), a, b, case.get("spatial")))
        return
    for det in w.masks(n) if n <= 10 else large_masks(n):
        if case["by"] == "none" and not all(det):
            continue
        for known in w.masks(sum(det)) if n <= 10 else large_masks(sum(det)):
            if case["by"] != "none":
                W.selections[TAG[case["by"]]].mask = det
            W.selections["dist"].mask = known
            w.LOG.clear()
            pop = W.synth.draw_survey(n_samples=n)
            cov.step()
            cov.state((case["by"], case.get("spatial"), det, known))
            check_known(pop, det, known)
            ev = [e for e in w.LOG if e[0] == "select" and e[1] == "dist"]
            check(len(ev) == 1 and ev[0][2] == sum(det), "the distance selection was not asked once about the detected objects", events=ev)
            d = w.arr(pop.distances)[list(det)] if n else np.array([])
            check(ev[0][4] is not None and np.array_equal(ev[0][4], d), "the distance selection does not see the detected distances")
            cov.outcome((det, known))
    w.LOG.clear()


def run_builtin(case, cov):
    n = case["n"]
    errors = dict(flux_sigma=case["sigma"]) if case.get("sigma") else {}
    spec = spec_of(case)
    for det in w.masks(n):
        W = w.World(dict(spec))
        W.selections["flux"].mask = det
        kind = case["builtin"]
        P = w.popsynth
        if kind == "absent":
            for _ in range(2):
                pop = W.synth.draw_survey(n_samples=n)
                cov.step()
                check_known(pop, det, (True,) * sum(det))
            cov.state((kind, det))
            continue
        if kind == "unity":
            W.synth.set_distance_selection(P.UnitySelection())
            pop = W.synth.draw_survey(n_samples=n)
            cov.step()
            cov.state((kind, det))
            check_known(pop, det, (True,) * sum(det))
            continue
        if kind == "bernoulli":
            for prog in (False, True):
                s = P.BernoulliSelection()
                s.probability = case["p"]
                W.synth.set_distance_selection(s)
                with w.progress(prog):
                    pop = W.synth.draw_survey(n_samples=n)
                cov.step()
                cov.state((kind, det, case["p"], prog))
                check_known(pop, det, (case["p"] == 1.0,) * sum(det))
            continue
        pop = W.synth.draw_survey(n_samples=n, **errors)
        on = case["on"]
        v = {
            "use_distance": w.arr(pop.distances),
            "use_luminosity": w.arr(pop.luminosities),
            "use_flux": w.arr(pop.fluxes),
        }[on]
        v = v[np.array(det, dtype=bool)]
        pts = sorted(set(v.tolist()))
        bounds = [(pts[0] if pts else 1.0) * 0.5] + pts + [(pts[-1] if pts else 1.0) * 2]
        mids = [(x + y) / 2 for x, y in zip(bounds[:-1], bounds[1:])]
        bounds = sorted(bounds + mids)
        if kind == "box":
            pairs = [(a, b) for a in bounds for b in bounds]
        else:
            pairs = [(a, None) for a in bounds]
        for a, b in pairs:
            if kind == "box":
                s = P.BoxSelection(**{on: True})
                s.vmin, s.vmax = a, b
                exp = [a <= x <= b for x in v]
            elif kind == "lower":
                s = P.LowerBound(**{on: True})
                s.boundary = a
                exp = [x >= a for x in v]
            else:
                s = P.UpperBound(**{on: True})
                s.boundary = a
                exp = [x <= a for x in v]
            W.synth.set_distance_selection(s)
            pop = W.synth.draw_survey(n_samples=n, **errors)
            cov.step()
            cov.state((kind, on, det, bounds.index(a), None if b is None else bounds.index(b)))
            check_known(pop, det, exp)
            cov.outcome((det, tuple(exp)))
