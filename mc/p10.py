"""
P10: a population survives being written to and read from a file unchanged.

A: a product of configurations, detection patterns and options, each stored,
loaded, stored again and loaded again, with the synth rebuilt from it. B: all
histories of write, add, failing add and load operations on files, in lockstep
with a model (path -> population). C: an addition that fails at any of its steps
leaves what was stored before. Oracle: the population itself.
"""
import copy
import itertools
import os
import pickle
import shutil

import h5py
import numpy as np

import popsynth
from popsynth import AuxiliarySampler
import popsynth.population as pp
from mc.core import check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all storage histories up to a depth in lockstep with a model, and a fault at every storage step"
BOUNDS = {
    "quick": "all detection x distance patterns of <= 3 objects; 9 spatial x 9 luminosity sources; 13 sampler topologies x 4 sets of model spaces x 3 survey options x sizes 0-3; histories of <= 3 of 12 operations on 2 files with 4 populations, everything loaded after each; a fault at every storage step of 4 populations; surveys of 60, 150 and 1100 objects of every topology; 11 awkward values of 10 kinds of parameters; auxiliary quantities of 5 kinds of values",
    "thorough": "as quick with patterns of <= 4 objects and histories of <= 4 operations",
}
ASSUMPTIONS = [
    "names of samplers, parameters and model spaces do not contain a slash",
    "attributes of graph nodes are not part of the stored graph",
]
CHUNK = 4

P = w.popsynth

N = lambda name, **k: dict(name=name, type="NormalAuxSampler", params={"mu": 2.0, "tau": 1.0, "sigma": 0.5}, **k)

TOPOLOGIES = {
    "none": dict(),
    "observed": dict(aux=[N("a")], top=["a"]),
    "latent": dict(aux=[N("a", observed=False)], top=["a"]),
    "two": dict(aux=[N("z"), N("a")], top=["z", "a"]),
    "chain": dict(aux=[N("z"), N("b", secondary=["z"]), N("a", secondary=["b"])], top=["a"]),
    "reverse order": dict(aux=[N("z"), N("m"), N("b", secondary=["z", "m"])], top=["b"]),
    "diamond": dict(aux=[N("s"), N("y", secondary=["s"]), N("b", secondary=["s"]), N("a", secondary=["y", "b"])], top=["a"]),
    "shared": dict(aux=[N("s"), N("y", secondary=["s"]), N("b", secondary=["s"])], top=["y", "b"]),
    "selection": dict(aux=[N("a", sel=["UpperBound", {"boundary": 2.0}, {"use_distance": True}]), N("b", sel=["BernoulliSelection", {}])], top=["b", "a"]),
    "angle": dict(aux=[dict(name="va", type="ViewingAngleSampler", params={"max_angle": 30.0}, sel=["UpperBound", {"boundary": 0.3}, {"use_obs_value": True}])], top=["va"]),
    "derived": dict(lum=None, aux=[N("z"), dict(name="e", type="McCompute", secondary=["z"]), N("a")], top=["e", "a"]),
    "nine": dict(aux=[N("z")] + [N("a%d" % i, secondary=["z"]) for i in range(4)] + [N("b%d" % i) for i in range(4)], top=["a%d" % i for i in (3, 1, 0, 2)] + ["b%d" % i for i in (1, 3, 2, 0)]),
    "odd names": dict(aux=[N("a b"), N("\u03b1"), N("x.y"), N("name"), N("group")], top=["a b", "\u03b1", "x.y", "name", "group"]),
}

MODEL_SPACES = [
    [],
    [["m", 1.0, 10.0, True]],
    [["z", 0.0, 2.0, False], ["m", 1.0, 10.0, True]],
    [["one", 1e-3, 1e3, True], ["two", -1.0, 1.0, False], ["three", 2.0, 2.0, False]],
]

OPTIONS = [dict(), dict(flux_sigma=0.25), dict(flux_sigma=0.25, log10_flux_draw=False)]


def shown(pop):
    """What ``display`` shows"""
    out = []
    old = pp.display
    pp.display = lambda x: out.append(getattr(x, "data", None) if not hasattr(x, "to_dict") else w.plain(x.to_dict("list")))
    try:
        pop.display()
    finally:
        pp.display = old
    # parameters are stored without an order
    return [sorted(zip(*[map(str, v) for v in x.values()])) if isinstance(x, dict) else x for x in out]


def secondaries_as_lists(d):
    """The names of secondaries may be the keys of a dictionary"""
    if isinstance(d, dict):
        return {k: list(v) if k == "secondary" else secondaries_as_lists(v) for k, v in d.items()}
    return d


def whole(pop, names):
    s = w.snapshot(pop, names)
    s["pop_synth"] = secondaries_as_lists(s["pop_synth"])
    s["shown"] = shown(pop)
    s["repr"] = repr(pop)
    s["has_detections"] = bool(pop.has_detections)
    s["ra"] = w.arr(pop.ra).tobytes()
    s["dec"] = w.arr(pop.dec).tobytes()
    return s


def compare(pop, loaded, names, what):
    a, b = whole(pop, names), whole(loaded, names)
    w.same_survey(a, b, what)
    check(w.arr(loaded.selection).dtype == bool, "%s has a selection that is not boolean" % what)
    check(list(pop.truth) == list(loaded.truth) or set(pop.truth) == set(loaded.truth), "%s has another truth" % what)


def cases(tier):
    top = 3 if tier == "quick" else 4
    for n in range(top + 1):
        for m in w.masks(n):
            for d in w.masks(sum(m)):
                yield dict(kind="pattern", n=n, mask=m, dist=d, tier=tier)
    for sp, lu in itertools.product(w.SPATIAL, list(w.LUM) + ["derived", "both"]):
        yield dict(kind="config", spatial=sp, lum=lu)
    for t, m in itertools.product(TOPOLOGIES, range(len(MODEL_SPACES))):
        yield dict(kind="topology", topology=t, spaces=m, tier=tier)
    for t in TOPOLOGIES:
        yield dict(kind="many", topology=t)
    for x in WHERE:
        yield dict(kind="values", where=x)
    for kind in KINDS:
        yield dict(kind="kinds", values=kind)
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            if OPS[seq[0]][0] != "write" and OPS[seq[0]][2] != "missing":
                continue  # nothing can be added to a file that is not there
            yield dict(kind="history", seq=seq)
    for i in range(len(POPS)):
        for nested in (False, True):
            if tier == "thorough" or (i == 0) == nested:
                for part in range(4):
                    yield dict(kind="fault", pop=i, nested=nested, part=part)


# ---------------------------------------------------------------------------


def cycle(pop, names, cov, synth=None, options=None, full=True):
    """Store, load, store again, load again"""
    before = whole(pop, names)
    pop.writeto("a.h5")
    w.same_survey(before, whole(pop, names), "storing changed the population")
    one = P.Population.from_file("a.h5")
    compare(pop, one, names, "the loaded population")
    cov.step(2)
    if full:
        one.writeto("b.h5")
        two = P.Population.from_file("b.h5")
        compare(pop, two, names, "the population stored and loaded twice")
        cov.step(2)
        os.remove("b.h5")
    else:
        two = one
    two.addto("a.h5", "deeper/down")
    two = P.Population.from_group("a.h5", "deeper/down")
    compare(pop, two, names, "the population stored and loaded again")
    cov.step(2)
    if full:
        compare(pop, P.Population.from_file("a.h5"), names, "the population in the root, after another was added,")
    os.remove("a.h5")
    for copied, what in ((pickle.loads(pickle.dumps(pop)), "an unpickled population"), (copy.deepcopy(one), "a copied population")):
        compare(pop, copied, names, what)
        cov.step()
    # sub-populations of a loaded population, and stored sub-populations
    for obs in (True, False) if full else ():
        sub = pop.to_sub_population(observed=obs)
        w.same_survey(whole(sub, names), whole(one.to_sub_population(observed=obs), names), "the sub population of a loaded population")
        sub.writeto("s.h5")
        compare(sub, P.Population.from_file("s.h5"), names, "a loaded sub population")
        os.remove("s.h5")
        cov.step(2)
    if synth is not None:
        again = P.PopulationSynth.from_dict(two.pop_synth)
        got = w.snapshot(again.draw_survey(**options), names)
        exp = w.snapshot(pop, names)
        for s in (got, exp):
            s["pop_synth"] = secondaries_as_lists(s["pop_synth"])
            s["stan"] = {k: v for k, v in s["stan"].items() if k not in [m[0] for m in sum(MODEL_SPACES, [])]}
        w.same_survey(exp, got, "the survey of the synth rebuilt from a loaded population")
        for x, what in ((pickle.loads(pickle.dumps(synth)), "an unpickled synth"), (copy.deepcopy(synth), "a copied synth")):
            w.same_survey(whole(pop, names), whole(x.draw_survey(**options), names), "the survey of %s" % what)
            cov.step()
        cov.step()
    cov.outcome(repr(sorted(before["n"])) + str(before["fluxes"][1]))
    cov.state(repr(before))


def run_pattern(case, cov):
    for lum in (w.LUM["pareto"], None):
        spec = dict(aux=[N("q")], top=["q"], flux=["McMask", case["mask"]], dist=["McMask", case["dist"]], lum=lum)
        if lum is None:
            spec["aux"] = spec["aux"] + [dict(name="e", type="McCompute")]
            spec["top"] = ["q", "e"]
        W = w.World(spec)
        for k in OPTIONS[: 2 if lum is not None else 1]:
            pop = W.synth.draw_survey(n_samples=case["n"], **k)
            cycle(pop, list(W.samplers), cov, full=case["tier"] == "thorough")


def run_config(case, cov):
    spec = dict(spatial=w.SPATIAL[case["spatial"]], seed=12, dist=["BernoulliSelection", {}])
    if case["lum"] in ("derived", "both"):
        spec.update(TOPOLOGIES["derived"])
        if case["lum"] == "both":
            spec["lum"] = w.LUM["pareto"]
    else:
        spec["lum"] = w.LUM[case["lum"]]
    W = w.World(spec)
    for n in (0, 1, 3):
        k = dict(n_samples=n)
        cycle(W.synth.draw_survey(**k), list(W.samplers), cov, W.synth, k, full=n == 3)
    for k in (dict(), dict(normalize=True)):
        cycle(W.synth.draw_survey(**k), list(W.samplers), cov, W.synth, k, full=False)


def run_many(case, cov):
    spec = dict(TOPOLOGIES[case["topology"]], model_spaces=MODEL_SPACES[2], flux=["SoftFluxSelection", {"boundary": 0.1, "strength": 2.0}], dist=["BernoulliSelection", {}], seed=8)
    W = w.World(spec)
    for n in (60, 150, 1100):
        for k in OPTIONS[:2]:
            k = dict(k, n_samples=n)
            cycle(W.synth.draw_survey(**k), list(W.samplers), cov, W.synth, k, full=n == 150)


def run_topology(case, cov):
    spec = dict(
        TOPOLOGIES[case["topology"]],
        model_spaces=MODEL_SPACES[case["spaces"]],
        flux=["SoftFluxSelection", {"boundary": 0.1, "strength": 2.0}],
        dist=["BernoulliSelection", {}],
        space=["GalacticPlaneSelection", {"b_limit": 10.0}] if case["spaces"] % 2 else None,
    )
    full = case["tier"] == "thorough"
    for seed in (5, 2**31 + 3) if full else (2**31 + 3,):
        W = w.World(dict(spec, seed=seed))
        for n, k in itertools.product((0, 1, 2, 3), OPTIONS):
            if n and not k and not full:
                continue
            k = dict(k, n_samples=n)
            cycle(W.synth.draw_survey(**k), list(W.samplers), cov, W.synth, k, full=full or n == 3 and k["flux_sigma"] and "log10_flux_draw" not in k)


# values which are not those of other types of numbers
VALUES = [0.1, 1 / 3.0, 2.0**53 + 2, 2.0**24 + 1, 1e51, 123456789.123456789, 1e-60, 5, 2**31 + 1, 0.30000000000000004, 1e5]
WHERE = ["r_max", "Lambda", "delta", "Lp", "gain", "boundary", "seed", "flux_sigma", "spaces", "nested gain"]


def values_world(where, v):
    p = dict(Lambda=1.0, delta=-1.5, r_max=2.0)
    if where in p:
        p[where] = v if where != "delta" else -1 / v if v > 100 else v
    spec = dict(
        spatial=["ZPowerSphericalDistribution", p],
        lum=["DeltaDistribution", {"Lp": v if where == "Lp" else 1.5}],
        aux=[
            dict(name="in", type="McAux", params={"gain": v if where == "nested gain" else 2.0}),
            dict(name="a", type="McAux", secondary=["in"], params={"gain": v if where == "gain" else 2.0}, sel=["LowerBound", {"boundary": v if where == "boundary" else 0.5}, {"use_obs_value": True}]),
        ],
        top=["a"],
        flux=["SoftFluxSelection", {"boundary": 0.01, "strength": 2.0}],
        model_spaces=[["m", v, 2 * v, False]] if where == "spaces" else [],
        seed=int(v) % 2**32 if where == "seed" else 8,
    )
    return w.World(spec), dict(n_samples=3, flux_sigma=min(v, 20.0) if where == "flux_sigma" else 0.25)


def run_values(case, cov):
    for v in VALUES:
        W, k = values_world(case["where"], v)
        if case["where"] == "r_max":
            # only the number is of interest
            W.spatial.draw_distance = lambda size, **kw: setattr(W.spatial, "_distances", np.arange(1.0, size + 1)) or setattr(W.spatial, "_probability", np.ones(size))
        pop = W.synth.draw_survey(**k)
        cycle(pop, list(W.samplers), cov)


# values of auxiliary quantities of other kinds than floating point numbers
KINDS = {
    "flags": [True, False, False, True, True],
    "counts": [0, 3, -2, 2**53 + 1, 7],
    "small": np.array([1, 2, 250, 0, 9], dtype=np.uint8),
    "single": np.array([0.1, 2.5, 1e30, -1.0, 0.0], dtype=np.float32),
    "complex": [1j, 0.5, 2 - 1j, 0, 1e-9],
}


class McKinds(AuxiliarySampler):
    """Gives certain values, and them in reverse when observed"""

    _auxiliary_sampler_name = "McKinds"

    kind = ""

    def true_sampler(self, size):
        self._true_values = np.resize(np.array(KINDS[McKinds.kind]), size)

    def observation_sampler(self, size):
        self._obs_values = self._true_values[::-1].copy()


def run_kinds(case, cov):
    McKinds.kind = case["values"]
    for n, observed in itertools.product((0, 1, 5, 40), (True, False)):
        W = w.World(dict(seed=3, flux=["SoftFluxSelection", {"boundary": 0.1, "strength": 2.0}], dist=["BernoulliSelection", {}]))
        W.synth.add_observed_quantity(McKinds("flag", observed=observed))
        pop = W.synth.draw_survey(n_samples=n, flux_sigma=0.2)
        pop.writeto("a.h5")
        pop.addto("a.h5", "in")
        one = P.Population.from_file("a.h5")
        for got, what in (
            (one, "the loaded population"),
            (P.Population.from_group("a.h5", "in"), "the population loaded from a group"),
            (pickle.loads(pickle.dumps(pop)), "an unpickled population"),
            (one.to_sub_population(), "the observed part of the loaded population"),
        ):
            exp = pop.to_sub_population() if "part" in what else pop
            for a, b, form in ((exp.flag, got.flag, "observed"), (exp.flag.latent, got.flag.latent, "true")):
                a, b = w.arr(a), w.arr(b)
                check(a.dtype == b.dtype and np.array_equal(a, b), "%s has other %s values of an auxiliary quantity, or of another kind" % (what, form), got=b, expected=a, kinds=(str(b.dtype), str(a.dtype)))
            cov.step()
        os.remove("a.h5")
        cov.state((case["values"], n, observed))


# ---------------------------------------------------------------------------
# histories

POPS = [
    (dict(TOPOLOGIES["chain"], model_spaces=MODEL_SPACES[2], dist=["BernoulliSelection", {}], seed=1), dict(n_samples=4, flux_sigma=0.1)),
    (dict(TOPOLOGIES["derived"], seed=2), dict(n_samples=2)),
    (dict(seed=3), dict(n_samples=0)),
    (dict(TOPOLOGIES["selection"], seed=4, flux=["HardFluxSelection", {"boundary": 1e9}]), dict(n_samples=3)),
]

# (operation, population, file, group)
OPS = [
    ("write", 0, "f", None),
    ("write", 1, "f", None),
    ("write", 2, "g", None),
    ("add", 1, "f", "x"),
    ("add", 0, "f", "x"),
    ("add", 2, "f", "y"),
    ("add", 3, "f", "x/inside"),
    ("add", 0, "g", "x"),
    ("add", 1, "f", "truth"),
    ("add", 1, "f", "fluxes"),
    ("add", 3, "missing", "x"),
    ("reload", 0, "f", "z"),
]

_cache = {}


def populations():
    if not _cache:
        for i, (spec, k) in enumerate(POPS):
            W = w.World(spec)
            _cache[i] = (W.synth.draw_survey(**k), list(W.samplers))
    return _cache


def path_of(f):
    return os.path.join(os.getcwd(), f + ".h5")


def run_history(case, cov):
    pops = populations()
    model = {}  # file -> {group or None: population index}
    for f in ("f", "g", "missing"):
        if os.path.exists(path_of(f)):
            os.remove(path_of(f))
    for i in case["seq"]:
        op, p, f, g = OPS[i]
        pop, names = pops[p]
        path = path_of(f)
        if op == "write":
            pop.writeto(path)
            model[f] = {None: p}
        else:
            if op == "reload":
                # a loaded population is added to the file it comes from
                stored = model.get(f)
                if not stored:
                    continue
                pop, names = P.Population.from_file(path), None
                p = stored[None]
            refused = f not in model or g in model[f] or g in ("truth", "fluxes")
            if f in model and g.split("/")[0] in model[f] and "/" in g and g not in model[f]:
                refused = False
            # a group is also there if another was added inside of it
            if f in model and any(k is not None and k.startswith(g + "/") for k in model[f]):
                refused = True
            try:
                pop.addto(path, g)
                ok = True
            except Exception:
                ok = False
            check(ok != refused, "an addition is %s" % ("accepted" if ok else "refused"), operation=OPS[i], model=model)
            if f == "missing":
                check(not os.path.exists(path), "an addition to a missing file leaves one behind")
            if ok:
                model[f][g] = p
        cov.step()
        for ff, groups in model.items():
            for gg, pi in groups.items():
                q, qn = pops[pi]
                l = P.Population.from_file(path_of(ff)) if gg is None else P.Population.from_group(path_of(ff), gg)
                compare(q, l, qn, "after %s, the population in %s" % (op, gg or "the root"))
                cov.step()
    cov.state(repr(sorted((k, sorted(map(str, v.items()))) for k, v in model.items())))
    cov.outcome(repr(sorted((k, sorted(map(str, v.items()))) for k, v in model.items())))


# ---------------------------------------------------------------------------
# faults


class Faults:
    """The k-th creation of a group or data set, or of an attribute, fails"""

    POINTS = [(h5py.Group, "create_dataset"), (h5py.Group, "create_group"), (h5py.Group, "__setitem__"), (h5py.AttributeManager, "__setitem__")]

    def __init__(self, k):
        self.k = k
        self.n = 0

    def __enter__(self):
        self.old = [getattr(c, m) for c, m in self.POINTS]
        for (c, m), f in zip(self.POINTS, self.old):
            setattr(c, m, self.wrap(f))
        return self

    def wrap(self, f):
        def call(*a, **k):
            self.n += 1
            if self.n == self.k:
                raise OSError(28, "no space left on device (injected)")
            return f(*a, **k)

        return call

    def __exit__(self, *a):
        for (c, m), f in zip(self.POINTS, self.old):
            setattr(c, m, f)


def run_fault(case, cov):
    pops = populations()
    pop, names = pops[case["pop"]]
    before = whole(pop, names)
    g = "new/place" if case["nested"] else "new"
    k = case["part"] - 3
    pops[0][0].writeto("base.h5")
    pops[1][0].addto("base.h5", "x")
    while True:
        k += 4
        shutil.copyfile("base.h5", "f.h5")
        failed = False
        with Faults(k) as fault:
            try:
                pop.addto("f.h5", g)
            except OSError:
                failed = True
        compare(pops[0][0], P.Population.from_file("f.h5"), pops[0][1], "after a failed addition, the population in the root")
        compare(pops[1][0], P.Population.from_group("f.h5", "x"), pops[1][1], "after a failed addition, the population in a group")
        # the file can still be added to
        if k % 5 == 0:
            pop.addto("f.h5", "retry")
            compare(pop, P.Population.from_group("f.h5", "retry"), names, "a population added after a failed addition")
            cov.step(2)
        w.same_survey(before, whole(pop, names), "a failed addition changed the population")
        cov.step(3)
        cov.state((case["pop"], case["nested"], k))
        if not failed:
            check(fault.n < k, "the addition of a population swallowed an error", at=k)
            compare(pop, P.Population.from_group("f.h5", g), names, "the added population")
            
            break
    os.remove("f.h5")


def run(case, cov):
    globals()["run_" + case["kind"]](case, cov)
