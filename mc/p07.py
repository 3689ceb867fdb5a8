"""
P07: drawing changes nothing but the result, and results never change later.

(a) Every point at which a sampler, a selection or a distribution is called in a
survey fails once, for several synths, options and histories: the configuration
is as it was, earlier surveys too, and the next draw is that of a fresh synth.
(b) All sequences of operations up to a depth, destructive ones included: no
population drawn in between ever changes.
(c) Every way of displaying, printing, storing or inspecting, in all sequences up
to a depth: neither the configuration nor any population changes.
"""
import itertools
import os

import matplotlib.pyplot as plt
import numpy as np

from mc import p06
from mc import world as w
from mc.core import HarnessError, Violation, check

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: a failure at every call of a component, all operation sequences up to a depth"
BOUNDS = {
    "quick": "a failure at every component call of 6 configurations x 5 sets of draw options x 3 histories; all sequences of <= 2 of 33 operations on 4 configurations (1 on 8); all sequences of <= 2 of 19 inspections on 8 configurations",
    "thorough": "as quick with sequences of <= 3 operations on 4 configurations, two failures in a row",
}
ASSUMPTIONS = ["the state of numpy's global random number generator is not counted as a setting"]
CHUNK = 8


class McSpace(w.popsynth.ZPowerSphericalDistribution):
    """A distribution which may fail wherever it is called"""

    _distribution_name = "McSpace"

    def dNdV(self, r):
        w.fault_point("dNdV")
        return super().dNdV(r)

    def differential_volume(self, r):
        w.fault_point("volume")
        return super().differential_volume(r)

    def time_adjustment(self, r):
        w.fault_point("time")
        return super().time_adjustment(r)

    def transform(self, L, r):
        w.fault_point("transform")
        return super().transform(L, r)

    def draw_sky_positions(self, size):
        w.fault_point("sky")
        return super().draw_sky_positions(size)


class McLum(w.popsynth.ParetoDistribution):
    _distribution_name = "McLum"

    def draw_luminosity(self, size):
        w.fault_point("draw_luminosity")
        return super().draw_luminosity(size)

    def phi(self, L):
        w.fault_point("phi")
        return super().phi(L)


M = lambda name, **k: dict(name=name, type="McAux", **k)

FAULTY = {
    "plain": dict(),
    "aux": dict(
        aux=[M("c"), M("b", secondary=["c"], observed=False), M("a", secondary=["b"]), M("d", secondary=["c"])],
        top=["a", "d"],
    ),
    "selections": dict(
        aux=[M("c", sel=["McMask", None]), M("a", secondary=["c"], sel=["McMask", None])],
        top=["a"],
        flux=["McMask", None],
        dist=["McMask", None],
        space=["McSpatialMask", None],
    ),
    "derived": dict(lum=None, aux=[M("f"), dict(name="e", type="McDerived", secondary=["f"]), M("a")], top=["e", "a"], flux=["McMask", None]),
    # a density of nothing: surveys of no objects
    "empty": dict(density=0.0, aux=[M("a")], top=["a"], flux=["McMask", None]),
    "both": dict(aux=[dict(name="e", type="McDerived"), M("a")], top=["e", "a"], dist=["McMask", None]),
}

OPTIONS = [
    dict(n_samples=2),
    dict(n_samples=0),
    dict(n_samples=3, normalize=True, flux_sigma=0.3),
    dict(),
    dict(normalize=True),
]

HISTORIES = ("fresh", "drawn", "failed")


def make(name, seed=13):
    spec = dict(FAULTY[name], seed=seed)
    spec["spatial"] = [McSpace, {"Lambda": spec.pop("density", 0.12), "delta": -1.0, "r_max": 2.0}]
    if spec.get("lum", 1) is not None:
        spec["lum"] = [McLum, {"Lmin": 1.0, "alpha": 1.5}]
    W = w.World(spec)
    for s in W.selections.values():
        s.mask = lambda size: np.arange(size) % 3 != 1
    return W


def config(W):
    """Every parameter and setting that can be read"""
    out = {"dict": w.plain(W.synth.to_dict()), "graph": w.graph_key(W.synth.graph, True), "name": W.synth.name}
    for k, o in [("spatial", W.spatial), ("lum", W.lum)]:
        if o is not None:
            out[k] = (w.plain(o.truth), w.plain(o.params), o.name, o.form)
    for k, s in W.samplers.items():
        out["sampler " + k] = (
            w.plain(s.truth),
            s.name,
            s.obs_name,
            s.observed,
            s.is_secondary,
            tuple(s.parents),
            s.has_secondary,
            tuple(s.secondary_samplers),
            s.uses_distance,
            s.uses_luminosity,
            s.uses_sky_position,
            w.plain(s.get_truths()),
            id(s.selector),
        )
    for k, s in W.selections.items():
        out["selection " + k] = (w.plain(s.parameters), s.name)
    c = w.popsynth.popsynth_config
    out["config"] = (bool(c.show_progress), float(c.cosmology.Om), float(c.cosmology.h0))
    out["cosmology"] = (float(w.popsynth.cosmology.Om), float(w.popsynth.cosmology.h0))
    return out


def same_config(a, b, what):
    for k in sorted(set(a) | set(b)):
        check(a.get(k) == b.get(k), "%s changed the configuration" % what, item=k, before=a.get(k), after=b.get(k))


def cases(tier):
    for name in FAULTY:
        for o in range(len(OPTIONS)):
            if FAULTY[name].get("density") == 0 and o not in (1, 3):
                continue
            for h in HISTORIES:
                for prog in (False, True):
                    if prog and (o not in (0, 2) or h != "fresh"):
                        continue
                    yield dict(faults=name, options=o, history=h, progress=prog, twice=tier == "thorough" and o in (0, 2))
    for name in p06.WORLDS:
        for d in range(0, 3):
            for seq in itertools.product(range(len(INSPECT)), repeat=d):
                yield dict(inspect=name, ops=[INSPECT[i].__name__[3:] for i in seq])
    names = list(p06.WORLDS)
    for d in (1, 2, 3):
        if d == 3 and tier == "quick":
            break
        for seq in itertools.product(range(len(DESTROY)), repeat=d):
            for name in names if d == 1 else names[1:5]:
                yield dict(immutable=name, ops=[DESTROY[i].__name__[3:] for i in seq])


# ---------------------------------------------------------------------------
# (a)


def run_faults(case, cov):
    name = case["faults"]
    opt = OPTIONS[case["options"]]
    # a survey without failures
    W = make(name)
    names = list(W.samplers)
    w.FAULT.update(at=None, n=0)
    with w.progress(case["progress"]):
        reference = w.snapshot(W.synth.draw_survey(**opt), names)
    total = w.FAULT["n"]
    cov.note("failure points", total)
    at = 0
    while at < total:
        at += 1
        W = make(name)
        old = None
        if case["history"] == "drawn":
            old = W.synth.draw_survey(n_samples=3 if FAULTY[name].get("density") != 0 else 0, flux_sigma=0.2)
            old_snap = w.snapshot(old, names)
        elif case["history"] == "failed":
            fail(W, opt, max(1, total // 2), case["progress"])
        before = config(W)
        fail(W, opt, at, case["progress"])
        cov.step()
        cov.state((name, case["options"], case["history"], case["progress"], at))
        same_config(before, config(W), "a failed draw")
        if case.get("twice"):
            fail(W, opt, (at * 7) % total + 1, case["progress"])
            same_config(before, config(W), "a failed draw")
        if old is not None:
            w.same_survey(old_snap, w.snapshot(old, names), "a failed draw changed an earlier survey")
        with w.progress(case["progress"]):
            again = W.synth.draw_survey(**opt)
        cov.step()
        w.same_survey(reference, w.snapshot(again, names), "the draw after a failed one is not that of a fresh synth")
        same_config(before, config(W), "a draw")
        cov.outcome((name, case["options"], at))
        # not every single call of the density in the rejection sampling
        if total > 400 and 60 < at < total - 60:
            at += total // 200


def fail(W, opt, at, prog):
    w.FAULT.update(at=at, n=0)
    try:
        with w.progress(prog):
            W.synth.draw_survey(**opt)
        raise HarnessError("no failure at point %d" % at)
    except w.McFault:
        pass
    finally:
        w.FAULT.update(at=None, n=0)


# ---------------------------------------------------------------------------
# (b)


def de_redraw(s):
    s.synth.draw_survey(n_samples=5, flux_sigma=0.5)


def de_redraw_small(s):
    s.synth.draw_survey(n_samples=1)


def de_params(s):
    W = s.W
    objs = [W.spatial] + ([W.lum] if W.lum is not None else []) + list(W.samplers.values()) + list(W.selections.values())
    for o in objs:
        p = dict(o.parameters if hasattr(o, "parameters") else o.truth)
        for k, v in p.items():
            try:
                setattr(o, k, v * 1.1)
            except RuntimeError:
                pass


def de_storage(s):
    W = s.W
    objs = [W.spatial] + ([W.lum] if W.lum is not None else [])
    for o in objs:
        for k in list(o.params):
            o.params[k] = o.params[k] * 1.0 + 1e-9


def de_clean(s):
    s.synth.clean()
    if s.W.lum is None:
        s.synth.add_observed_quantity(w.McDerived("new"))


def de_clean_reset(s):
    s.synth.clean(reset=True)
    if s.W.lum is None:
        s.synth.add_observed_quantity(w.McDerived("new"))


def de_add(s):
    k = "x%d" % len(s.W.samplers)
    a = w.McAux(k)
    s.W.samplers[k] = a
    s.synth.add_observed_quantity(a)


def de_secondary(s):
    k = "x%d" % len(s.W.samplers)
    a = w.McAux(k)
    for v in list(s.W.samplers.values())[:1]:
        v.set_secondary_sampler(a)
    s.W.samplers[k] = a


def de_flux(s):
    f = w.popsynth.HardFluxSelection()
    f.boundary = 1.0
    s.synth.set_flux_selection(f)


def de_dist(s):
    f = w.popsynth.BernoulliSelection()
    f.probability = 0.1
    s.synth.set_distance_selection(f)


def de_space(s):
    f = w.popsynth.GalacticPlaneSelection()
    f.b_limit = 30.0
    s.synth.add_spatial_selector(f)


def de_model(s):
    s.synth.add_model_space("fg", 2.0, 3.0, log=False)


def de_reset_samplers(s):
    for v in s.W.samplers.values():
        v.reset()
    for v in s.W.selections.values():
        v.reset()


DESTROY = [
    de_redraw,
    de_redraw_small,
    de_params,
    de_storage,
    de_clean,
    de_clean_reset,
    de_add,
    de_secondary,
    de_flux,
    de_dist,
    de_space,
    de_model,
    de_reset_samplers,
] + [getattr(p06, "op_" + k) for k in ("edit_pop", "samplers", "fail", "other", "other_same", "copy", "restore", "draw_norm", "draw_zero", "param", "inspect_pop", "yaml", "repr", "progress", "rmax", "draw", "draw_n", "reselect", "random", "quiet")]
for _f in DESTROY:
    globals()[_f.__name__] = _f


def find(name, prefixes=("de_", "op_")):
    for prefix in prefixes:
        if prefix + name in globals():
            return globals()[prefix + name]
    raise HarnessError(name)


def run_immutable(case, cov):
    s = p06.State(case["immutable"])
    names = list(s.W.samplers)
    kept = []

    def keep(**o):
        try:
            p = s.synth.draw_survey(**o)
        except (AssertionError, RuntimeError):
            # a sampler which is attached and a secondary at once
            return
        have = [k for k in names if hasattr(p, k)]
        kept.append((p, have, w.snapshot(p, have)))

    with w.quiet_output():
        keep(n_samples=4, flux_sigma=0.2)
        keep(normalize=True)
        for o in case["ops"]:
            try:
                find(o)(s)
            except (AssertionError, RuntimeError, AttributeError):
                pass
            cov.step()
            for p, have, before in kept:
                w.same_survey(before, w.snapshot(p, have), "%s changed a survey drawn before" % o)
            keep(n_samples=3)
    cov.state((case["immutable"], tuple(case["ops"])))
    cov.outcome((case["immutable"], tuple(case["ops"][-1:])))
    w.popsynth.silence_progress_bars()


# ---------------------------------------------------------------------------
# (c)


def in_graph(s, p):
    s.synth.graph
    p.graph


def in_dict(s, p):
    s.synth.to_dict()


def in_yaml(s, p):
    s.synth.write_to("i.yml")


def in_repr(s, p):
    repr(s.synth)
    repr(p)
    for o in list(s.W.samplers.values()) + [s.W.spatial, s.W.lum]:
        repr(o)


def in_display(s, p):
    s.synth.display()
    for o in s.W.samplers.values():
        o.display()


def in_display_pop(s, p):
    p.display()


def in_true_fluxes(s, p):
    p.display_true_fluxes()


def in_obs_fluxes(s, p):
    p.display_obs_fluxes()


def in_fluxes(s, p):
    p.display_fluxes()


def in_luminosities(s, p):
    p.display_luminosities()


def in_distances(s, p):
    p.display_distances()


def in_sphere(s, p):
    p.display_obs_fluxes_sphere(show=False)
    p.display_hidden_fluxes_sphere(show=False, use_log=True)


def in_stan(s, p):
    p.to_stan_data()


def in_sub(s, p):
    p.to_sub_population()
    p.to_sub_population(observed=False)


def in_write(s, p):
    p.writeto("i.h5")
    w.popsynth.Population.from_file("i.h5")


def in_addto(s, p):
    if os.path.exists("j.h5"):
        os.remove("j.h5")
    p.writeto("j.h5")
    p.addto("j.h5", "again")
    w.popsynth.Population.from_group("j.h5", "again")


def in_math(s, p):
    np.log10(p.fluxes) * 2 + p.distances
    p.ra, p.dec
    p.fluxes.selected + 1
    p.fluxes.non_selected
    p.fluxes.copy()


def in_properties(s, p):
    for k in dir(p):
        if not k.startswith("_") and k not in ("hard_cut", "distance_probability"):
            getattr(p, k)
    for o in list(s.W.samplers.values()) + list(s.W.selections.values()) + [s.W.spatial]:
        for k in dir(o):
            if not k.startswith("_"):
                try:
                    getattr(o, k)
                except (RuntimeError, AttributeError, TypeError, AssertionError):
                    pass


def in_objects(s, p):
    for v in s.W.samplers.values():
        v.get_secondary_objects()
        v.get_secondary_properties()
        v.get_truths()


INSPECT = [
    in_graph,
    in_dict,
    in_yaml,
    in_repr,
    in_display,
    in_display_pop,
    in_true_fluxes,
    in_obs_fluxes,
    in_fluxes,
    in_luminosities,
    in_distances,
    in_sphere,
    in_stan,
    in_sub,
    in_write,
    in_addto,
    in_math,
    in_properties,
    in_objects,
]

SLOW = ("true_fluxes", "obs_fluxes", "fluxes", "luminosities", "distances", "sphere")


def run_inspect(case, cov):
    ops = case["ops"]
    if len(ops) == 2 and sum(o in SLOW for o in ops) == 2 and ops[0] != ops[1]:
        if case["inspect"] not in ("simple", "all slots"):
            return
    s = p06.State(case["inspect"])
    names = list(s.W.samplers)
    p = s.synth.draw_survey(n_samples=4, flux_sigma=0.2)
    c0, p0 = config(s.W), w.snapshot(p, names)
    rng0 = np.random.get_state()
    with w.quiet_output():
        for o in ops:
            find(o, ("in_",))(s, p)
            cov.step()
            same_config(c0, config(s.W), "inspecting (%s)" % o)
            w.same_survey(p0, w.snapshot(p, names), "inspecting (%s) changed the population" % o)
    plt.close("all")
    q = s.synth.draw_survey(n_samples=4, flux_sigma=0.2)
    w.same_survey(p0, w.snapshot(q, names), "after inspecting another survey is drawn")
    cov.state((case["inspect"], tuple(ops)))
    cov.outcome((case["inspect"], tuple(ops[-1:])))


def run(case, cov):
    if "faults" in case:
        return run_faults(case, cov)
    if "immutable" in case:
        return run_immutable(case, cov)
    return run_inspect(case, cov)
