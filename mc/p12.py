"""
P12: exported Stan data describe exactly the detected objects.

Every detection pattern times every distance pattern of n objects. Oracle: the
rows of the population.
"""
import numpy as np

from mc.core import check
from mc import p03
from mc import world as w
from mc import p11

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all detection x distance patterns"
BOUNDS = {
    "quick": "all detection patterns x all distance patterns for n <= 5 objects; 9 spatial distributions, 3 luminosity sources, with and without errors, model spaces, secondaries; also of sub-populations, of loaded populations and after redraws; patterns of 130, 300 and 100000 objects",
    "thorough": "as quick with n <= 7 objects",
}
ASSUMPTIONS = ["detection is brought about by the flux selection"]
CHUNK = 1


def cases(tier):
    top = 5 if tier == "quick" else 7
    for n in range(top + 1):
        for sigma in (None, 0.3):
            yield dict(n=n, sigma=sigma)
    for sp in w.SPATIAL:
        for lum in ("pareto", "delta", "derived"):
            yield dict(n=3, sigma=0.2, spatial=sp, lum=lum, few=True)
    for n in (130, 300):
        yield dict(n=n, sigma=0.2)
    yield dict(n=100000, sigma=0.2, few=True)
    yield dict(n=3, sigma=0.2, aux="none")
    yield dict(n=3, sigma=0.2, odd=True)
    yield dict(n=3, sigma=None, nodist=True)
    yield dict(n=2, sigma=0.2, spaces=[["x", 1.0, 5.0, False], ["y", 0.1, 10.0, True], ["z", 1e-3, 1e3, True]])
    yield dict(n=2, sigma=0.2, spaces=[])


def grid(a, b, log, n):
    if log:
        return np.array([10 ** (np.log10(a) + (np.log10(b) - np.log10(a)) * i / (n - 1)) for i in range(n)])
    return np.array([a + (b - a) * i / (n - 1) for i in range(n)])


COUNTS = ("N", "Nz", "Nnz", "N_model")


def check_stan(pop, det, known, names, spaces, r_max, sigma):
    det = np.array(det, dtype=bool)
    known = np.array(known, dtype=bool)
    st = pop.to_stan_data()
    d = w.arr(pop.distances)[det]
    f = w.arr(pop.fluxes)[det]
    exp = dict(
        N=int(det.sum()),
        Nz=int(known.sum()),
        Nnz=int((~known).sum()),
        z_obs=d,
        r_obs=d,
        known_z_obs=d[known],
        known_r_obs=d[known],
        z_idx=np.where(known)[0] + 1,
        r_idx=np.where(known)[0] + 1,
        z_nidx=np.where(~known)[0] + 1,
        r_nidx=np.where(~known)[0] + 1,
        flux_obs=f,
        log_flux_obs=np.log10(f),
        flux_sigma=sigma,
        z_max=r_max,
        r_max=r_max,
        N_model=None,
    )
    nm = int(st["N_model"])
    exp["N_model"] = nm
    for k, a, b, log in spaces:
        exp[k] = grid(a, b, log, nm)
    for k in names:
        exp[k + "_obs"] = w.arr(getattr(pop, k))[det]
    check(set(st) == set(exp), "the exported quantities are not the expected ones", extra=sorted(set(st) - set(exp)), missing=sorted(set(exp) - set(st)))
    for k, v in exp.items():
        got = st[k]
        if k in COUNTS:
            check(type(got) is int, "a count is not a plain integer", quantity=k, type=type(got))
        if isinstance(v, np.ndarray):
            g = np.asarray(got)
            check(g.shape == v.shape, "an exported quantity has the wrong length", quantity=k, got=g.shape, expected=v.shape)
            if k in ("z_idx", "r_idx", "z_nidx", "r_nidx"):
                check(g.dtype.kind in "iu", "an exported index is not of integers", quantity=k, type=g.dtype)
            if k in [s[0] for s in spaces]:
                ok = np.allclose(g, v, rtol=1e-10)
            elif k == "log_flux_obs":
                ok = np.allclose(g, v, rtol=1e-12, atol=1e-14)
            else:
                ok = np.array_equal(g, v)
            check(ok, "an exported quantity is wrong", quantity=k, got=g, expected=v)
        else:
            check(got == v, "an exported quantity is wrong", quantity=k, got=got, expected=v)
    # nothing about undetected objects or latent values
    hidden = set()
    for c in p11.COLS + tuple(names):
        col = getattr(pop, c)
        hidden |= set(w.arr(col)[~det].tolist()) | set(w.arr(col.latent)[~det].tolist())
        o, l = w.arr(col)[det], w.arr(col.latent)[det]
        hidden |= set(l[o != l].tolist())
    shown = set()
    for c in p11.COLS + tuple(names):
        shown |= set(w.arr(getattr(pop, c))[det].tolist())
    leaks = hidden - shown
    for k, v in st.items():
        if isinstance(v, np.ndarray) and k not in [s[0] for s in spaces]:
            vals = set(np.asarray(v, dtype=float).ravel().tolist())
            if k not in ("z_idx", "r_idx", "z_nidx", "r_nidx"):
                check(not (vals & leaks), "an exported quantity has values of hidden objects", quantity=k)
    return st


def run(case, cov):
    W = p11.build(case) if "spaces" not in case else None
    spaces = case.get("spaces", [["fg", 1.0, 10.0, True]])
    if W is None:
        W = p11.build(dict(case))
        W.synth = w.PopulationSynth(W.spatial, W.lum, seed=9)
        for k in ("a", "h", "g"):
            W.synth.add_observed_quantity(W.samplers[k])
        W.synth.set_flux_selection(W.selections["flux"])
        W.synth.set_distance_selection(W.selections["dist"])
        for m in spaces:
            W.synth.add_model_space(m[0], m[1], m[2], log=m[3])
    names = list(W.samplers)
    n = case["n"]
    r_max = W.spatial.r_max
    sigma = -1 if case["sigma"] is None else case["sigma"]
    for det in w.masks(n) if n <= 10 else p03.large_masks(n):
        W.selections["flux"].mask = det
        ks = list(w.masks(sum(det))) if n <= 10 else p03.large_masks(sum(det))
        if case.get("nodist"):
            ks = [None]
        elif case.get("few") and len(ks) > 3:
            ks = [ks[0], ks[1], ks[-1]]
        for known in ks:
            if known is not None:
                W.selections["dist"].mask = known
            pop = W.synth.draw_survey(n_samples=n, flux_sigma=case["sigma"])
            cov.step()
            k = (True,) * sum(det) if known is None else known
            before = w.snapshot(pop, names)
            st = check_stan(pop, det, k, names, spaces, r_max, sigma)
            cov.state((n, det, known))
            cov.outcome((n, det, known, case["sigma"], case.get("spatial"), case.get("lum")))
            check_stan(pop.to_sub_population(), (True,) * sum(det), k, names, spaces, r_max, sigma)
            check_stan(pop.to_sub_population(False), (True,) * (n - sum(det)), (False,) * (n - sum(det)), names, spaces, r_max, sigma)
            # loaded from a file
            if n <= 3:
                pop.writeto("p.h5")
                q = w.popsynth.Population.from_file("p.h5")
                check_stan(q, det, k, names, spaces, r_max, sigma)
                cov.step()
            w.same_survey(before, w.snapshot(pop, names), "exporting changed the population")
