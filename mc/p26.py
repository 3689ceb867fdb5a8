"""
P26: components that a user defines work like the built-in ones.

(a) Every way to spread the required methods of a base over a chain of two classes
and their mixins: the class can be instantiated exactly if a hierarchy of plain
Python abstract classes of the same shape can. (b) Every pair of classes: what is a
subclass, or an instance, of what. (c) All sequences of class definitions up to a
depth against a model of the names. (d) Every provided class and every subset of the
methods it lets one override: the survey is that of the class it extends with
exactly these changes. (e) Every pattern of normalization parameters.
"""
import abc
import contextlib
import io
import itertools
import os

import numpy as np

from mc.core import check
from mc import p25
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: exhaustive enumeration of class hierarchies and of sequences of class definitions, against a model of the names and plain Python abstract classes"
BOUNDS = {
    "quick": "9 bases x every placement of their required methods (8 places each); all pairs of over 60 classes; all sequences of <= 4 of 8 definitions for 4 kinds of components; 45 provided classes x all subsets of the methods they let one override x 2 shapes of hierarchies, surveys drawn directly and restored; all patterns of <= 4 parameters of which any are normalizations",
    "thorough": "sequences of <= 5 definitions, patterns of <= 6 parameters",
}
ASSUMPTIONS = ["every class that is meant to be used has a registered name of its own", "selections that extend the selection which accepts everything are not considered"]
CHUNK = 24

P = w.popsynth

from popsynth import auxiliary_sampler as _aux  # noqa: E402
from popsynth import distribution as _dist  # noqa: E402
from popsynth.distributions import CosmologicalDistribution, SphericalDistribution  # noqa: E402
from popsynth.selection_probability import spatial_selection as _spatial  # noqa: E402

# base -> (name attribute, registry, arguments, required methods)
BASES = {
    "SpatialDistribution": (_dist.SpatialDistribution, "_distribution_name", ("name", "seed"), ("differential_volume", "dNdV", "transform")),
    "SphericalDistribution": (SphericalDistribution, "_distribution_name", (), ("dNdV",)),
    "CosmologicalDistribution": (CosmologicalDistribution, "_distribution_name", (), ("dNdV",)),
    "LuminosityDistribution": (_dist.LuminosityDistribution, "_distribution_name", ("name", "seed"), ("phi", "draw_luminosity")),
    "AuxiliarySampler": (_aux.AuxiliarySampler, "_auxiliary_sampler_name", ("name",), ("true_sampler",)),
    "NonObservedAuxSampler": (_aux.NonObservedAuxSampler, "_auxiliary_sampler_name", ("name",), ("true_sampler",)),
    "DerivedLumAuxSampler": (_aux.DerivedLumAuxSampler, "_auxiliary_sampler_name", ("name",), ("true_sampler", "compute_luminosity")),
    "SelectionProbability": (P.SelectionProbability, "_selection_name", ("name",), ("draw",)),
    "SpatialSelection": (_spatial.SpatialSelection, "_selection_name", ("name",), ("draw",)),
}
REGISTRY = {
    "_distribution_name": w.distribution_registry,
    "_auxiliary_sampler_name": w.auxiliary_parameter_registry,
    "_selection_name": w.selection_registry,
}
PLACES = ("nowhere", "first", "second", "mixin before first", "mixin after first", "mixin before second", "first, abstract in second", "second, abstract in first")


def args_of(names):
    return {k: dict(name="x", seed=1)[k] for k in names}


def listed(kind):
    """What the package lists"""
    f = {
        "_distribution_name": P.utils.registry.list_available_distributions,
        "_auxiliary_sampler_name": P.utils.registry.list_available_auxiliary_samplers,
        "_selection_name": P.utils.registry.list_available_selection_functions,
    }[kind]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue().split("\n")[:-1]


def forget(kind, *names):
    for n in names:
        try:
            REGISTRY[kind].unregister(n)
        except (KeyError, ValueError):
            pass


def cases(tier):
    quick = tier == "quick"
    for base, (_, _, _, req) in BASES.items():
        for first in PLACES:
            yield dict(kind="required", base=base, first=first)
    yield dict(kind="relations")
    for n in range(1, 5 if quick else 7):
        yield dict(kind="normalizations", n=n)
    for what in KINDS:
        for depth in range(1, 5 if quick else 6):
            for first in DEFINITIONS:
                yield dict(kind="names", what=what, depth=depth, first=first)
    for slot, cls, methods in provided():
        for k in range(len(methods) + 1):
            for some in itertools.combinations(methods, k):
                for shape in ("one", "two"):
                    if shape == "two" and k == 0:
                        continue
                    yield dict(kind="overriding", slot=slot, cls=cls, methods=list(some), shape=shape)


def run(case, cov):
    globals()[case["kind"]](case, cov)
    cov.state(repr(sorted(case.items(), key=str)))


# ---------------------------------------------------------------------------
# (a)


def required(case, cov):
    base, attr, args, req = BASES[case["base"]]
    twin = abc.ABCMeta("Twin", (), {m: abc.abstractmethod(lambda self, *a: None) for m in req})
    for rest in itertools.product(PLACES, repeat=len(req) - 1):
        places = dict(zip(req, (case["first"],) + rest))
        real = hierarchy(base, places, {attr: "McRequired"}, {attr: "McRequiredSecond"})
        plain = hierarchy(twin, places, {}, {})
        for level, (r, t) in enumerate(zip(real, plain)):
            name = ("McRequired", "McRequiredSecond")[level]
            possible = not t.__abstractmethods__
            try:
                o = r(**args_of(args))
            except TypeError as e:
                o = None
                check(not possible, "a class that defines all required methods cannot be instantiated", base=case["base"], places=places, level=level, error=str(e))
            else:
                check(possible, "a class that lacks a required method can be instantiated", base=case["base"], places=places, level=level)
                check(isinstance(o, base) and type(o) is r, "an instance is not one of its class")
            check(
                (name in listed(attr)) == possible,
                "a class is not listed, although it is complete" if possible else "a class is listed that is not complete",
                base=case["base"], places=places, level=level,
            )
            for a, b in itertools.product((r, base) + real, repeat=2):
                check(issubclass(a, b) == (b in a.__mro__), "a class is not a subclass of exactly its bases", cls=a.__name__, base=b.__name__)
            cov.step()
        cov.outcome((case["base"], tuple(places.values())))
        forget(attr, "McRequired", "McRequiredSecond")


def hierarchy(base, places, one, two):
    """Two classes, one derived of the other, with the methods at their places"""
    method = lambda self, *a: np.ones(1)
    own = [dict(one), dict(two)]
    before, after = [{}, {}], [{}, {}]
    for m, p in places.items():
        if p == "first":
            own[0][m] = method
        elif p == "second":
            own[1][m] = method
        elif p == "mixin before first":
            before[0][m] = method
        elif p == "mixin after first":
            after[0][m] = method
        elif p == "mixin before second":
            before[1][m] = method
        elif p == "first, abstract in second":
            own[0][m] = method
            own[1][m] = abc.abstractmethod(lambda self, *a: None)
        elif p == "second, abstract in first":
            own[0][m] = abc.abstractmethod(lambda self, *a: None)
            own[1][m] = method
    out = []
    for i in range(2):
        bases = [base if i == 0 else out[0]]
        if before[i]:
            bases.insert(0, type("Before", (), before[i]))
        if after[i]:
            bases.append(type("After", (), after[i]))
        out.append(type(base)("Mc%d" % i, tuple(bases), own[i]))
    return tuple(out)


# ---------------------------------------------------------------------------
# (b)


def relations(case, cov):
    classes = [b for b, _, _, _ in BASES.values()] + [_dist.Distribution]
    for r in REGISTRY.values():
        classes += [c for k, c in sorted(r.items(), key=str) if c.__module__.startswith("popsynth")]
    for a in classes + [int, object, type]:
        for b in classes:
            check(issubclass(a, b) is (b in a.__mro__), "a class is not a subclass of exactly its bases", cls=a.__name__, base=b.__name__)
            check(issubclass(a, (int, b)) is (b in a.__mro__ or a is int), "a class is not a subclass of exactly its bases", cls=a.__name__, base=b.__name__)
            cov.step()
        cov.outcome(a.__name__)
    for o in (w.make(*w.LUM["delta"]), w.make(*w.SPATIAL["sfr"]), P.UnitySelection(), w.McAux("x"), 3, None):
        for b in classes:
            check(isinstance(o, b) is (b in type(o).__mro__), "an object is not an instance of exactly its classes", object=type(o).__name__, cls=b.__name__)
            cov.step()
    for b in classes:
        try:
            issubclass(3, b)
        except TypeError:
            continue
        check(False, "something that is no class is taken for one", base=b.__name__)


# ---------------------------------------------------------------------------
# (e)


def normalizations(case, cov):
    for pattern in itertools.product((False, True), repeat=case["n"]):
        for base in (_dist.SpatialDistribution, SphericalDistribution, CosmologicalDistribution, _dist.LuminosityDistribution):
            attrs = {"p%d" % i: P.DistributionParameter(default=2.0 + i, vmin=0, is_normalization=x) for i, x in enumerate(pattern)}
            attrs["_distribution_name"] = "McNormalizations"
            for m in ("dNdV", "transform", "differential_volume", "phi", "draw_luminosity"):
                if m not in dir(base) or getattr(getattr(base, m), "__isabstractmethod__", False):
                    attrs[m] = lambda self, *a: np.ones(1)
            try:
                c = type(base)("McNormalizations", (base,), attrs)
            except AssertionError:
                c = None
            check((c is None) == (sum(pattern) > 1), "a distribution is not refused exactly if it has several normalizations", pattern=pattern, base=base.__name__)
            cov.step()
            forget("_distribution_name", "McNormalizations")
            if c is None:
                continue
            o = c(**args_of(() if base in (SphericalDistribution, CosmologicalDistribution) else ("name", "seed")))
            for i, x in enumerate(pattern):
                check(getattr(o, "p%d" % i) == 2.0 + i, "a parameter reads as another value", pattern=pattern)
            for v in (None, 0.25, 1, 0, 1e9):
                for i, x in enumerate(pattern):
                    if v is not None:
                        setattr(o, "p%d" % i, v + i)
                values = [2.0 + i if v is None else v + i for i in range(len(pattern))]
                for fails in (False, True):
                    try:
                        with o.unit_normalization():
                            got = [getattr(o, "p%d" % i) for i in range(len(pattern))]
                            if fails:
                                raise KeyError()
                    except KeyError:
                        pass
                    check(got == [1 if x else y for x, y in zip(pattern, values)], "unit normalization does not act on exactly the normalization", pattern=pattern, got=got, values=values)
                    got = [getattr(o, "p%d" % i) for i in range(len(pattern))]
                    check(got == values, "unit normalization does not end", pattern=pattern, got=got, expected=values)
                    cov.step()
            cov.outcome(pattern)


# ---------------------------------------------------------------------------
# (c)

DEFINITIONS = ("A", "A again", "B", "A incomplete", "C extends the last", "last without a name", "A extends the last", "B incomplete")


def _spatial_class(name, base, value, complete):
    attrs = {} if name is None else {"_distribution_name": name}
    if base is None:
        base = SphericalDistribution
        attrs["dNdV"] = lambda self, r: 1.0

    def transform(self, L, r):
        return value * L / r

    attrs["transform"] = transform if complete else abc.abstractmethod(transform)
    return type(base)("McN", (base,), attrs)


def _lum_class(name, base, value, complete):
    base = base or _dist.LuminosityDistribution
    init = {} if base is not _dist.LuminosityDistribution else {"__init__": lambda self: base.__init__(self, name="x", seed=1)}
    return type(base)("McN", (base,), dict({} if name is None else {"_distribution_name": name}, **init, **({"phi": lambda self, L: np.ones(len(L)), "draw_luminosity": lambda self, size: np.full(size, value)} if complete else {"phi": abc.abstractmethod(lambda self, L: 1)})))


def _sampler_class(name, base, value, complete):
    base = base or _aux.AuxiliarySampler

    def true_sampler(self, size):
        self._true_values = np.full(size, value)

    return type(base)("McN", (base,), dict({} if name is None else {"_auxiliary_sampler_name": name}, true_sampler=true_sampler if complete else abc.abstractmethod(true_sampler)))


def _selection_class(name, base, value, complete):
    base = base or P.SelectionProbability

    def draw(self, size):
        self._selection = np.arange(size) % int(value) == 0

    return type(base)("McN", (base,), dict({} if name is None else {"_selection_name": name}, draw=draw if complete else abc.abstractmethod(draw)))


KINDS = {
    "spatial": ("_distribution_name", _spatial_class),
    "luminosity": ("_distribution_name", _lum_class),
    "sampler": ("_auxiliary_sampler_name", _sampler_class),
    "selection": ("_selection_name", _selection_class),
}


def names(case, cov):
    attr, define = KINDS[case["what"]]
    initial = listed(attr)
    for rest in itertools.product(DEFINITIONS, repeat=case["depth"] - 1):
        model = {}
        last = None  # the class defined last, its name, whether it is complete
        value = 2.0
        try:
            for op in (case["first"],) + rest:
                value += 1.0
                name, base = op[0], None
                complete = "incomplete" not in op
                if "last" in op:
                    if last is None:
                        continue
                    base = last[0]
                    name = op[0] if op != "last without a name" else None
                c = define(None if name is None else "Mc" + name, base, value, complete)
                if name is None:
                    name = last[1]
                last = (c, name)
                if complete:
                    model["Mc" + name] = value
                got = listed(attr)
                check(sorted(got) == sorted(initial + list(model)), "the components that are listed are not those which were defined", sequence=(case["first"],) + rest, got=sorted(set(got) ^ set(initial)), expected=sorted(model))
                cov.step()
            for n, v in model.items():
                restored(case["what"], n, v, cov)
        finally:
            forget(attr, "McA", "McB", "McC")
        cov.outcome((case["what"], tuple(sorted(model.items()))))
    check(listed(attr) == initial, "harness: names are left")


def restored(what, name, value, cov):
    """A configuration that has the name"""
    spatial = {"ConstantSphericalDistribution": {"Lambda": 1.0, "r_max": 2.0}}
    lum = {"DeltaDistribution": {"Lp": 7.0}}
    d = {"seed": 11, "spatial distribution": spatial, "luminosity distribution": lum}
    if what == "spatial":
        d["spatial distribution"] = {name: {"r_max": 2.0}}
    elif what == "luminosity":
        d["luminosity distribution"] = {name: {}}
    elif what == "sampler":
        d["auxiliary samplers"] = {"q": {"type": name, "observed": False}}
    else:
        d["flux selection"] = {name: {}}
    s = P.PopulationSynth.from_dict(d)
    for synth in (s, P.PopulationSynth.from_dict(s.to_dict())):
        p = synth.draw_survey(n_samples=7)
        if what == "spatial":
            got = np.allclose(w.arr(p.fluxes.latent), value * 7.0 / w.arr(p.distances), rtol=1e-12)
        elif what == "luminosity":
            got = bool((w.arr(p.luminosities) == value).all())
        elif what == "sampler":
            got = bool((w.arr(p.q) == value).all())
        else:
            got = np.array_equal(w.arr(p.selection), np.arange(7) % int(value) == 0)
        check(got, "a configuration does not use the latest class of a name", component=what, name=name)
        cov.step()


# ---------------------------------------------------------------------------
# (d)

SELECTIONS = {
    "LowerBound": ({"boundary": 0.4}, "use"),
    "UpperBound": ({"boundary": 0.9}, "use"),
    "BoxSelection": ({"vmin": 0.3, "vmax": 1.1}, "use"),
    "SoftSelection": ({"boundary": 0.7, "strength": 3.0}, "use"),
    "BernoulliSelection": ({"probability": 0.5}, None),
    "HardFluxSelection": ({"boundary": 0.4}, "flux"),
    "SoftFluxSelection": ({"boundary": 0.4, "strength": 2.0}, "flux"),
    "GalacticPlaneSelection": ({"b_limit": 35.0}, "space"),
    "DistanceSelection": ({"min_distance": 0.9, "max_distance": 1.7}, "space"),
}
SPATIAL_METHODS = ("transform", "draw_sky_positions", "dNdV", "differential_volume", "time_adjustment")


def provided():
    for k in w.SPATIAL:
        yield "spatial", k, SPATIAL_METHODS if k != "spiral" else SPATIAL_METHODS[:1] + SPATIAL_METHODS[2:]
    for k in w.LUM:
        yield "luminosity", k, ("draw_luminosity", "phi")
    done = set()
    for cls, p in p25.parameters():
        if cls not in done:
            done.add(cls)
            yield "sampler", cls, ("true_sampler", "observation_sampler") if cls != "ViewingAngleSampler" else ("true_sampler",)
    for k in ("RASampler", "DecSampler"):
        yield "sampler", k, ("true_sampler",)
    yield "derived", "McCompute", ("true_sampler", "compute_luminosity")
    for k, (_, use) in SELECTIONS.items():
        for slot in {"use": ("flux", "dist", "aux", "secondary"), "flux": ("flux",), "space": ("space",), None: ("flux", "dist", "aux", "secondary")}[use]:
            yield "selection " + slot, k, ("draw",)


def extend(cls, methods, shape, attr):
    """Classes derived of a class that change what its methods give"""

    def transform(self, L, r):
        return 2 * super(self._mc["transform"], self).transform(L, r)

    def draw_sky_positions(self, size):
        super(self._mc["draw_sky_positions"], self).draw_sky_positions(size)
        self._theta = np.pi - self._theta

    def dNdV(self, r):
        return 2 * super(self._mc["dNdV"], self).dNdV(r)

    def differential_volume(self, r):
        return 4 * super(self._mc["differential_volume"], self).differential_volume(r)

    def time_adjustment(self, r):
        return 0.5 * super(self._mc["time_adjustment"], self).time_adjustment(r)

    def draw_luminosity(self, size):
        return 2 * super(self._mc["draw_luminosity"], self).draw_luminosity(size)

    def phi(self, L):
        return 3 * np.asarray(super(self._mc["phi"], self).phi(L))

    def true_sampler(self, size):
        super(self._mc["true_sampler"], self).true_sampler(size)
        self._true_values = self._true_values * 2

    def observation_sampler(self, size):
        super(self._mc["observation_sampler"], self).observation_sampler(size)
        self._obs_values = self._obs_values + 1.0

    def compute_luminosity(self):
        return 2 * super(self._mc["compute_luminosity"], self).compute_luminosity()

    def draw(self, size):
        super(self._mc["draw"], self).draw(size)
        self._selection = ~self._selection

    have = locals()
    owner = {}
    parts = [methods] if shape == "one" else [methods[: len(methods) // 2], methods[len(methods) // 2 :]]
    c = cls
    for i, part in enumerate(parts):
        c = type(cls)("McSub%d" % i, (c,), dict({m: have[m] for m in part}, _mc=owner, **{attr: "McSub%d" % i}))
        for m in part:
            owner[m] = c
    return c


def spec(case, sub):
    """The synth with the class itself, or with the one that extends it"""
    slot, cls = case["slot"], case["cls"]
    cosmo = slot == "spatial" and cls in ("sfr", "sfr-steady", "zpcosmo", "zpcosmo-steady", "uniform")
    spatial = list(w.SPATIAL[cls if slot == "spatial" else "const"])
    lum = list(w.LUM[cls if slot == "luminosity" else "pareto"])
    if slot == "spatial" and sub:
        spatial[0] = sub
    if slot == "luminosity" and sub:
        lum[0] = sub
    S = P.PopulationSynth(w.make(*spatial), None if slot == "derived" else w.make(*lum), seed=23)
    a = P.LogNormalAuxSampler("a")
    a.mu, a.tau, a.sigma = -0.3, 0.5, 0.01
    S.add_observed_quantity(a)
    o = None
    if slot == "sampler":
        kw = {} if cls in ("ViewingAngleSampler", "RASampler", "DecSampler") else dict(name="x", observed=True)
        p = next((p for c, p in p25.parameters() if c == cls), {})
        o = w.make(sub or cls, dict(p, **({"sigma": 0.3} if kw else {})), kw)
        S.add_observed_quantity(o)
    elif slot == "derived":
        o = w.make(sub or cls, {"scale": 2.0}, dict(name="x"))
        S.add_observed_quantity(o)
    elif slot.startswith("selection"):
        where = slot.split()[1]
        params, use = SELECTIONS[cls]
        kw = {}
        if use == "use":
            kw = {"flux": dict(use_flux=True), "dist": dict(use_distance=True)}.get(where, dict(use_obs_value=True))
        s = w.make(sub or cls, params, kw)
        if where == "flux":
            S.set_flux_selection(s)
        elif where == "dist":
            S.set_distance_selection(s)
        elif where == "space":
            S.add_spatial_selector(s)
        elif where == "aux":
            a.set_selection_probability(s)
        else:
            b = P.LogNormalAuxSampler("b")
            b.mu, b.tau, b.sigma = -0.3, 0.5, 0.01
            b.set_selection_probability(s)
            a.set_secondary_sampler(b)
    if not slot.startswith("selection"):
        f = P.UpperBound(use_flux=True)
        f.boundary = 1e300
        S.set_flux_selection(f)
    return S, o


def columns(p, o):
    out = {}
    for k in ("luminosities", "distances", "theta", "phi", "a", "probability"):
        out[k] = w.arr(getattr(p, k)).astype(float)
    out["fluxes"] = w.arr(p.fluxes.latent)
    out["observed fluxes"] = w.arr(p.fluxes)
    out["a true"] = w.arr(p.a.latent)
    out["selection"] = w.arr(p.selection).astype(bool)
    out["known"] = [float(x) for x in w.arr(p.known_distances)]
    if o is not None:
        st = p._auxiliary_quantities[o.name] if o.name in ("ra", "dec") else None
        out["x"] = w.arr(getattr(p, o.name)) if st is None else w.arr(st["obs_values"])
        out["x true"] = w.arr(getattr(p, o.name).latent) if st is None else w.arr(st["true_values"])
    return out


def overriding(case, cov):
    slot, cls, methods = case["slot"], case["cls"], case["methods"]
    attr = {"spatial": "_distribution_name", "luminosity": "_distribution_name", "sampler": "_auxiliary_sampler_name", "derived": "_auxiliary_sampler_name"}.get(slot, "_selection_name")
    original = w.lookup({"spatial": w.SPATIAL, "luminosity": w.LUM}[slot][cls][0] if slot in ("spatial", "luminosity") else cls)
    if methods:
        sub = extend(original, methods, case["shape"], attr)
    else:
        sub = type(original)("McSub0", (original,), {attr: "McSub0"})
    try:
        for kw in (dict(n_samples=9), dict(n_samples=0), dict(n_samples=1), dict(n_samples=12, flux_sigma=0.3), dict(n_samples=5, flux_sigma=0.1, log10_flux_draw=False)):
            S0, o0 = spec(case, None)
            S, o = spec(case, sub)
            p0, p = S0.draw_survey(**kw), S.draw_survey(**kw)
            c0, c = columns(p0, o0), columns(p, o)
            compare(case, c0, c, S0, cov)
            synths = [(P.PopulationSynth.from_dict(S.to_dict()), "restored")]
            for T, what in synths:
                q = columns(T.draw_survey(**kw), o)
                for k in c:
                    check(np.array_equal(np.asarray(q[k]), np.asarray(c[k])), "the survey of a %s synth with a class that extends a provided one is another one" % what, column=k, cls=cls, methods=methods)
                cov.step()
    finally:
        forget(attr, "McSub0", "McSub1")
    cov.outcome((slot, cls, tuple(methods), case["shape"]))


def scale(e, f):
    for k in ("fluxes", "observed fluxes"):
        e[k] = f * e[k]


def compare(case, c0, c, S0, cov):
    slot, cls, m = case["slot"], case["cls"], set(case["methods"])
    e = dict(c0)
    f = 1.0
    if "transform" in m:
        scale(e, 2)
    if "draw_sky_positions" in m:
        e["theta"] = np.pi - e["theta"]
    if "dNdV" in m:
        f *= 2
    if "differential_volume" in m:
        f *= 4
    if "time_adjustment" in m:
        f *= 2
    if "phi" in m:
        f *= 3
    density = 1.0
    if "draw_luminosity" in m:
        e["luminosities"] = 2 * e["luminosities"]
        scale(e, 2)
        with np.errstate(all="ignore"):
            lum = S0.luminosity_distribution
            old, new = np.asarray(lum.phi(c0["luminosities"])), np.asarray(lum.phi(e["luminosities"]))
            density = np.where(old > 0, new / np.where(old > 0, old, 1), 0.0) if len(old) else 1.0
    e["probability"] = e["probability"] * f * density
    if slot == "derived":
        # the source takes its values from the sampler
        g = (2 if "true_sampler" in m else 1) * (2 if "compute_luminosity" in m else 1)
        e["luminosities"] = g * e["luminosities"]
        scale(e, g)
    if "x" in e:
        t, x = e["x true"], e["x"]
        if "true_sampler" in m:
            x = x + t if not np.array_equal(x, t) else 2 * x
            t = 2 * t
        if "observation_sampler" in m:
            x = x + 1.0
        e["x true"], e["x"] = t, x
    if slot.startswith("selection"):
        where = slot.split()[1]
        if "draw" in m:
            if where == "dist":
                d = [float(v) for v in c0["distances"]]
                e["known"] = [v for v in d if v not in set(c0["known"])]
            else:
                e["selection"] = ~e["selection"]
                e["known"] = None
    for k, v in e.items():
        if v is None:
            continue
        got, exp = np.asarray(c[k]), np.asarray(v)
        ok = got.shape == exp.shape and (np.array_equal(got, exp) if exp.dtype == bool else np.allclose(got, exp, rtol=1e-9, atol=1e-9 if k in ("x", "x true") else 0))
        check(ok, "the survey with a class that extends a provided one is not that with the changes it makes", column=k, cls=cls, slot=slot, methods=sorted(m), got=got, expected=exp)
        cov.step()
