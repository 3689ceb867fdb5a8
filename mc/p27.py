"""
P27: wrong configurations are refused, and what may be left out has its default.

(a) Every provided class and every subset of its parameters, by hand and from a
dictionary: with a parameter left out that has no default nothing can be drawn,
else the survey is that with the declared defaults put in. (b) Full dictionaries
without each entry, and without each pair of entries: refused, or the synth of what
is left, by an interpreter of dictionaries of its own. (c) Every value and name of a
dictionary replaced by every wrong one. (d) Every directed graph of up to three
samplers, with cycles, by hand and from a dictionary: drawn exactly if none of the
samplers below the attached ones depends on itself. (e) Every component that
returns k values when n are asked for: drawn exactly if k is n.
(f) Surveys of wrong numbers and wrong flux errors. After each of these
a valid configuration gives the same survey as ever.
"""
import copy
import itertools
import os

import numpy as np
import yaml

from mc.core import check
from mc import p09
from mc import p14
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: exhaustive enumeration of incomplete, wrong, cyclic and inconsistent configurations, against a table of declarations and an interpreter of dictionaries"
BOUNDS = {
    "quick": "%d uses of the provided classes x all subsets of their parameters x 2 ways of building; 4 full dictionaries without each entry and each pair of entries; each value and name of them replaced by up to 12 wrong ones; all 530 directed graphs of <= 3 samplers x 2 ways of building; 14 places where a component returns k values for n, n and k in 0..4; 12 wrong arguments of a survey",
    "thorough": "as quick, dictionaries without each three of their entries, from files too; n and k in 0..7",
}
ASSUMPTIONS = [
    "refused means that an exception is raised before there is a survey; which one, and when, is not specified",
    "entries of a dictionary that are not named like a parameter are not considered (they are ignored), nor are values that are null where the documentation does not have them",
    "the seed, the spatial distribution, and the type and observed flag of a sampler can not be left out",
]
CHUNK = 16

P = w.popsynth

NAMES = ("a", "b", "c")


class McAmount(w.McAux):
    """A sampler that returns other numbers of values than it is asked for"""

    _auxiliary_sampler_name = "McAmount"
    true_count = None
    obs_count = None

    def true_sampler(self, size):
        k = size if self.true_count is None else self.true_count
        self._true_values = np.arange(k) + 1.0

    def observation_sampler(self, size):
        k = size if self.obs_count is None else self.obs_count
        self._obs_values = np.arange(k) + 2.0


class McAmountDerived(P.DerivedLumAuxSampler):
    _auxiliary_sampler_name = "McAmountDerived"
    true_count = None
    luminosity_count = None

    def __init__(self, name):
        super().__init__(name, uses_distance=False)

    def true_sampler(self, size):
        k = size if self.true_count is None else self.true_count
        self._true_values = np.arange(k) + 1.0

    def compute_luminosity(self):
        k = len(self._true_values) if self.luminosity_count is None else self.luminosity_count
        return np.arange(k) + 3.0


class McAmountLum(P.ParetoDistribution):
    _distribution_name = "McAmountLum"
    count = None

    def draw_luminosity(self, size):
        return super().draw_luminosity(size if self.count is None else self.count)


def draw_mask(self, size):
    k = size if self.count is None else self.count
    self._selection = np.arange(k) % 3 != 1


class McAmountSel(P.SelectionProbability):
    _selection_name = "McAmountSel"
    count = None

    def __init__(self):
        super().__init__(name="amount")

    draw = draw_mask


from popsynth.selection_probability.spatial_selection import SpatialSelection  # noqa: E402


class McAmountSpace(SpatialSelection):
    _selection_name = "McAmountSpace"
    count = None

    def __init__(self):
        super().__init__(name="amount")

    draw = draw_mask


# ---------------------------------------------------------------------------


def reference():
    """A synth that has all kinds of components, from a dictionary"""
    return P.PopulationSynth.from_dict(copy.deepcopy(FULL["everything"]))


def survey(synth, names, n=4):
    return w.snapshot(synth.draw_survey(n_samples=n, flux_sigma=0.2), names)


def attempt(f):
    """The result, or None if it is refused"""
    try:
        return f()
    except Exception:
        return None


EVER = {}


def as_ever(what):
    now = survey(reference(), ("x", "y", "z"))
    if "survey" not in EVER:
        EVER["survey"] = now
    w.same_survey(EVER["survey"], now, "%s changed the survey of another synth" % what)


# ---------------------------------------------------------------------------
# dictionaries

SPACE = {"ZPowerSphericalDistribution": {"Lambda": 2.0, "delta": -0.5, "r_max": 3.0}}
LUM = {"SchechterDistribution": {"Lmin": 2.0, "alpha": 0.5}}


def sampler(type="NormalAuxSampler", observed=True, secondary=(), selection=None, **k):
    out = dict(k, type=type, observed=observed, secondary=list(secondary))
    if selection is not None:
        out["selection"] = selection
    return out


FULL = {
    "everything": {
        "seed": 7,
        "spatial distribution": SPACE,
        "luminosity distribution": LUM,
        "flux selection": {"SoftFluxSelection": {"boundary": 0.1, "strength": 3.0}},
        "distance selection": {"BernoulliSelection": {"probability": 0.7}},
        "spatial selection": {"GalacticPlaneSelection": {"b_limit": 3.0}},
        "auxiliary samplers": {
            "x": sampler(secondary=["y"], mu=1.5, tau=0.2, sigma=0.1, selection={"BernoulliSelection": {"probability": 0.8}}),
            "y": sampler("TruncatedNormalAuxSampler", mu=1.0, tau=2.0, lower=0.5, upper=2.5, sigma=0.3),
            "z": sampler("DeltaAuxSampler", observed=False, xp=4.0),
        },
    },
    "cosmological": {
        "seed": 3,
        "spatial distribution": {"ZPowerCosmoDistribution": {"Lambda": 0.3, "delta": -1.0, "r_max": 2.0}, "is_rate": False},
        "luminosity distribution": {"BPLDistribution": {"Lmin": 1.0, "alpha": -0.5, "Lbreak": 3.0, "beta": -2.5, "Lmax": 20.0}},
        "flux selection": {"HardFluxSelection": {"boundary": 0.01}},
        "distance selection": {"BoxSelection": {"vmin": 0.2, "vmax": 1.5}},
        "spatial selection": {"DistanceSelection": {"min_distance": 0.3, "max_distance": 1.6}},
    },
    "derived": {
        "seed": 5,
        "spatial distribution": {"SFRDistribution": {"r0": 0.5, "a": 0.2, "rise": 1.0, "decay": 3.0, "peak": 1.5, "r_max": 3.0}, "is_rate": True},
        "distance selection": {"UpperBound": {"boundary": 1.0}},
        "auxiliary samplers": {
            "e": dict(type="McCompute", observed=False, secondary=["s"], scale=2.0),
            "s": sampler("LogNormalAuxSampler", mu=0.5, tau=0.4, sigma=0.1),
        },
    },
    "shared": {
        "seed": 11,
        "spatial distribution": SPACE,
        "luminosity distribution": {"DeltaDistribution": {"Lp": 3.0}},
        "auxiliary samplers": {
            "p": sampler(secondary=["r"], mu=1.0),
            "q": sampler("ParetoAuxSampler", secondary=["r"], xmin=2.0, alpha=1.5, selection={"LowerBound": {"boundary": 2.5, "use_obs_value": True}}),
            "r": sampler("Log10NormalAuxSampler", tau=0.3),
        },
    },
}
SLOTS = {"flux selection": ("flux", "use_flux"), "distance selection": ("dist", "use_distance"), "spatial selection": ("space", None)}


class Refused(Exception):
    pass


def complete(name, given, table):
    """The parameters of a class, with its defaults"""
    out = dict(given)
    for k, x in table[name].items():
        if k not in out:
            if x["default"] is None:
                raise Refused("no value for %s" % k)
            out[k] = float(x["default"])
    return out


def selection(d, use):
    name, params = next(iter(d.items()))
    flags = {k: True for k in params if k.startswith("use_")}
    p = complete(name, {k: v for k, v in params.items() if not k.startswith("use_")}, p14.SEL)
    if name in ("LowerBound", "UpperBound", "BoxSelection", "SoftSelection") and use:
        flags = flags or {use: True}
    return [name, p, flags]


def interpret(d):
    """The specification that a dictionary stands for. Raises Refused"""
    spec = {}
    for k in ("seed", "spatial distribution"):
        if k not in d:
            raise Refused(k)
    spec["seed"] = d["seed"]
    sp = dict(d["spatial distribution"])
    kw = {}
    if "is_rate" in sp:
        kw["is_rate"] = sp.pop("is_rate")
    if not sp:
        raise Refused("no spatial distribution")
    name, params = next(iter(sp.items()))
    spec["spatial"] = [name, complete(name, params, p14.DIST), kw]
    spec["lum"] = None
    if "luminosity distribution" in d:
        if not d["luminosity distribution"]:
            raise Refused("no luminosity distribution")
        name, params = next(iter(d["luminosity distribution"].items()))
        spec["lum"] = [name, complete(name, params, p14.DIST)]
    for slot, (key, use) in SLOTS.items():
        if slot in d:
            if not d[slot]:
                raise Refused("no selection")
            spec[key] = selection(d[slot], use)
    aux, below = [], []
    samplers = d.get("auxiliary samplers", {})
    for name, a in samplers.items():
        a = dict(a)
        for k in ("type", "observed"):
            if k not in a:
                raise Refused(k)
        t, observed, secondary, sel = a.pop("type"), a.pop("observed"), list(a.pop("secondary", [])), a.pop("selection", None)
        if sel == {}:
            raise Refused("no selection")
        for s in secondary:
            if s not in samplers:
                raise Refused("undefined secondary")
        below += secondary
        table = dict(p14.AUX, McCompute={"scale": p14.d(1)})
        x = dict(name=name, type=t, params=complete(t, a, table), secondary=secondary)
        if t != "McCompute":
            x["observed"] = observed
        if sel is not None:
            x["sel"] = selection(sel, "use_obs_value")
        aux.append(x)
    spec["aux"] = aux
    spec["top"] = [a["name"] for a in aux if a["name"] not in below]
    if spec["lum"] is None and not any(a["type"] == "McCompute" for a in aux if a["name"] in spec["top"]):
        raise Refused("no luminosities")
    return spec


def paths(d, path=()):
    for k, v in d.items():
        yield path + (k,)
        if isinstance(v, dict):
            yield from paths(v, path + (k,))


def without(d, some):
    d = copy.deepcopy(d)
    for path in some:
        q = d
        for k in path[:-1]:
            q = q.get(k, {})
        q.pop(path[-1], None)
    return d


def names_of(spec):
    return [a["name"] for a in spec.get("aux", [])]


def compare(d, what, cov, file=False):
    """Build from a dictionary and compare with the interpreter"""
    try:
        spec = interpret(d)
    except Refused as e:
        spec, why = None, str(e)

    def build():
        if file:
            with open("c.yml", "w") as f:
                yaml.safe_dump(d, f, sort_keys=False)
            synth = P.PopulationSynth.from_file("c.yml")
            os.remove("c.yml")
        else:
            synth = P.PopulationSynth.from_dict(copy.deepcopy(d))
        return synth, synth.draw_survey(n_samples=4)

    cov.step()
    if spec is None:
        check(attempt(build) is None, "an incomplete configuration is accepted", why=why, left_out=what, dictionary=d)
        cov.outcome(("refused", why))
        return
    synth, pop = build()
    expected = w.World(spec)
    names = w.reachable(spec)
    w.same_survey(
        w.snapshot(expected.synth.draw_survey(n_samples=4), names),
        w.snapshot(pop, names),
        "the survey of a configuration without %s is not that with the defaults" % (what,),
    )
    check(set(pop.truth) == set(expected.synth.draw_survey(n_samples=1).truth), "the survey has other parts than its configuration", truth=pop.truth)
    cov.outcome(("drawn", repr(sorted(spec.items(), key=str))))


# ---------------------------------------------------------------------------
# cases


def uses():
    """Every class in every place it is for"""
    for name, (cls, p, *kw) in w.SPATIAL.items():
        yield dict(where="spatial", cls=cls, p=p, kw=(kw or [{}])[0])
    for name, (cls, p) in w.LUM.items():
        yield dict(where="lum", cls=cls, p=p, kw={})
    for cls, p in p09.AUX.items():
        yield dict(where="aux", cls=cls, p=p, kw={})
    for where, use in (("flux", "use_flux"), ("dist", "use_distance"), ("sel", "use_obs_value")):
        for cls, p in (
            ("LowerBound", {"boundary": 1.5}),
            ("UpperBound", {"boundary": 1.5}),
            ("BoxSelection", {"vmin": 1.0, "vmax": 2.0}),
            ("SoftSelection", {"boundary": 1.5, "strength": 4.0}),
        ):
            yield dict(where=where, cls=cls, p=p, kw={use: True})
        yield dict(where=where, cls="BernoulliSelection", p={"probability": 0.6}, kw={})
    for cls, p in (("HardFluxSelection", {"boundary": 0.2}), ("SoftFluxSelection", {"boundary": 0.2, "strength": 3.0})):
        yield dict(where="flux", cls=cls, p=p, kw={})
    yield dict(where="space", cls="GalacticPlaneSelection", p={"b_limit": 20.0}, kw={})
    yield dict(where="space", cls="DistanceSelection", p={"min_distance": 0.5, "max_distance": 1.5}, kw={})


WRONG_NUMBERS = ["abc", "", [], [1.0], [1.0, 2.0], {}, {"mu": 1.0}, "1.0.0"]
WRONG_NAMES = ["Nope", "", "normalauxsampler", "ParetoDistribution ", "NormalAuxSampler2"]
KINDS = {
    "spatial distribution": ["ParetoDistribution", "NormalAuxSampler", "HardFluxSelection", "GalacticPlaneSelection"],
    "luminosity distribution": ["ConstantSphericalDistribution", "NormalAuxSampler", "HardFluxSelection", "GalacticPlaneSelection"],
    "flux selection": ["ParetoDistribution", "ConstantSphericalDistribution", "NormalAuxSampler"],
    "distance selection": ["ParetoDistribution", "ConstantSphericalDistribution", "NormalAuxSampler"],
    "spatial selection": ["ParetoDistribution", "ConstantSphericalDistribution", "NormalAuxSampler", "HardFluxSelection"],
    "selection": ["ParetoDistribution", "ConstantSphericalDistribution", "NormalAuxSampler"],
    "type": ["ParetoDistribution", "ConstantSphericalDistribution", "HardFluxSelection"],
}
COUNT_PLACES = ("lum", "derived true", "derived luminosity", "flux", "dist", "space", "top true", "top obs", "top sel", "secondary true", "secondary obs", "secondary sel", "below derived true", "below derived sel")


def cases(tier):
    full = tier == "thorough"
    for i, u in enumerate(uses()):
        yield dict(kind="left_out", use=i)
    for name in FULL:
        yield dict(kind="entries", name=name, some=[], file=True)
        for i in range(len(list(paths(FULL[name])))):
            yield dict(kind="entries", name=name, first=i, count=2 if not full else 3, file=full)
    for name in FULL:
        for i in range(len(list(paths(FULL[name])))):
            yield dict(kind="wrong", name=name, at=i)
    for n in (1, 2, 3):
        for first in itertools.product((0, 1), repeat=n):
            yield dict(kind="digraphs", n=n, first=list(first))
    top = 4 if not full else 7
    for place in COUNT_PLACES:
        for n in range(top + 1):
            yield dict(kind="amounts", place=place, n=n, top=top)
    for name in FULL:
        yield dict(kind="arguments", name=name)


def arguments(case, cov):
    """A survey of no number of objects, or with no error of the fluxes"""
    nan, inf = float("nan"), float("inf")
    for n in (0, 1, 4):
        for k in [dict(n_samples=v) for v in (-1, -n - 1, n + 0.5, str(n), [n], [n, n], {}, nan)] + [
            dict(n_samples=n, flux_sigma=v) for v in ((-0.1, "0.1", nan, -inf) if n else ())
        ]:
            if "flux_sigma" in k and "flux selection" not in FULL[case["name"]]:
                continue
            synth = P.PopulationSynth.from_dict(copy.deepcopy(FULL[case["name"]]))
            names = w.reachable(interpret(FULL[case["name"]]))
            before = survey(synth, names, n)
            cov.step()
            check(attempt(lambda: synth.draw_survey(**k)) is None, "a survey is drawn from wrong arguments", arguments=repr(k), name=case["name"])
            w.same_survey(before, survey(synth, names, n), "the survey after one with wrong arguments")
            cov.outcome((case["name"], repr(k)))


def run(case, cov):
    as_ever("nothing")
    globals()[case["kind"]](case, cov)
    as_ever(case["kind"])
    cov.state(repr(sorted(case.items(), key=str)))


def left_out(case, cov):
    u = list(uses())[case["use"]]
    table = p14.DIST if u["where"] in ("spatial", "lum") else p14.AUX if u["where"] == "aux" else p14.SEL
    declared = table[u["cls"]]
    name = "va" if u["cls"] == "ViewingAngleSampler" else "x"
    for k in range(len(u["p"]) + 1):
        for some in itertools.combinations(u["p"], k):
            given = {x: u["p"][x] for x in some}
            missing = [x for x in declared if x not in given and declared[x]["default"] is None]

            def spec(p):
                c = [u["cls"], p, u["kw"]]
                if u["where"] == "aux":
                    return dict(aux=[dict(name=name, type=u["cls"], params=p)], top=[name])
                if u["where"] == "sel":
                    return dict(aux=[dict(name=name, type="NormalAuxSampler", sel=c)], top=[name])
                if u["where"] == "lum":
                    return dict(lum=c[:2])
                return {u["where"]: c}

            d = dictionary(u, given, name)

            def by_hand():
                return w.World(spec(given)).synth.draw_survey(n_samples=4)

            def from_dict():
                return P.PopulationSynth.from_dict(d).draw_survey(n_samples=4)

            if missing:
                for f in (by_hand, from_dict):
                    cov.step()
                    check(attempt(f) is None, "a survey is drawn although a parameter has no value", cls=u["cls"], given=given, missing=missing)
                cov.outcome((case["use"], "refused", some))
                continue
            expected = dict({x: v["default"] for x, v in declared.items()}, **given)
            names = [name] if u["where"] in ("aux", "sel") else []
            a = w.snapshot(w.World(spec(expected)).synth.draw_survey(n_samples=4), names)
            for f, what in ((by_hand, "by hand"), (from_dict, "from a dictionary")):
                cov.step()
                w.same_survey(a, w.snapshot(f(), names), "the survey of a synth built %s without some parameters of %s is not that with the defaults" % (what, u["cls"]))
            cov.outcome((case["use"], "drawn", some))


def dictionary(u, given, name):
    d = {
        "seed": 1234,
        "spatial distribution": {"ConstantSphericalDistribution": {"Lambda": 1.0, "r_max": 2.0}},
        "luminosity distribution": {"ParetoDistribution": {"Lmin": 1.0, "alpha": 1.5}},
        "auxiliary samplers": {},
    }
    key = {"spatial": "spatial distribution", "lum": "luminosity distribution", "flux": "flux selection", "dist": "distance selection", "space": "spatial selection"}.get(u["where"])
    if u["where"] == "aux":
        d["auxiliary samplers"][name] = dict(given, type=u["cls"], observed=name != "va")
    elif u["where"] == "sel":
        d["auxiliary samplers"][name] = dict(type="NormalAuxSampler", observed=True, selection={u["cls"]: dict(given, **u["kw"])})
    elif u["where"] == "spatial":
        d[key] = dict({u["cls"]: given}, **u["kw"])
    else:
        d[key] = {u["cls"]: dict(given, **u["kw"])}
    return d


def entries(case, cov):
    d = FULL[case["name"]]
    everything = list(paths(d))
    if "first" not in case:
        for file in (False, True):
            compare(copy.deepcopy(d), "nothing", cov, file=file)
        return
    i = case["first"]
    for k in range(case["count"]):
        for rest in itertools.combinations(range(i + 1, len(everything)), k):
            some = [everything[j] for j in (i,) + rest]
            if any(a != b and b[: len(a)] == a for a in some for b in some):
                continue
            compare(without(d, some), some, cov, file=case["file"] or k == 0)


def wrong(case, cov):
    """Something at one place of a dictionary that can not be meant"""
    d = FULL[case["name"]]
    path = list(paths(d))[case["at"]]
    value = d
    for k in path:
        value = value[k]

    def at(d, path):
        for k in path[:-1]:
            d = d[k]
        return d

    tried = []
    if path == ("seed",):
        for v in ("abc", [], {}, "1.5", -1, 2**32):
            x = copy.deepcopy(d)
            x["seed"] = v
            tried.append((v, x))
    elif isinstance(value, float) or isinstance(value, int) and not isinstance(value, bool):
        values = list(WRONG_NUMBERS)
        cls = path[-2]
        bounds = (p14.DIST.get(cls) or p14.SEL.get(cls) or p14.AUX.get(at(d, path).get("type")) or {}).get(path[-1])
        if bounds is not None:
            values += [v for v in (bounds["vmin"] is not None and bounds["vmin"] - 1e-9, bounds["vmax"] is not None and bounds["vmax"] + 1e-9) if v is not False]
            if bounds["vmin"] is not None:
                values += [-1e300, "-1", float("-inf"), float("nan")]
        for v in values:
            x = copy.deepcopy(d)
            at(x, path)[path[-1]] = v
            tried.append((v, x))
    elif path[-1] == "type":
        for v in WRONG_NAMES + KINDS["type"] + [[], 5]:
            x = copy.deepcopy(d)
            at(x, path)["type"] = v
            tried.append((v, x))
    elif path[-1] == "secondary":
        for v in ("nobody", ["nobody"], value + ["nobody"], ["nobody"] + value, {"nobody": {}}, path[-2], [path[-2]], value + [path[-2]]):
            x = copy.deepcopy(d)
            at(x, path)["secondary"] = v
            tried.append((v, x))
    elif isinstance(value, dict) and len(path) >= 2 and path[-2] in KINDS:
        # the name of a class
        for v in WRONG_NAMES + KINDS[path[-2]]:
            for params in (value, {}):
                x = copy.deepcopy(d)
                q = at(x, path)
                keep = {k: y for k, y in q.items() if k != path[-1]}
                q.clear()
                q.update({v: copy.deepcopy(params)}, **keep)
                tried.append((v, x))
    for v, x in tried:
        cov.step()
        pop = attempt(lambda: P.PopulationSynth.from_dict(x).draw_survey(n_samples=4))
        check(pop is None, "a wrong configuration is accepted", at=path, value=repr(v), dictionary=x)
        cov.outcome((path, repr(v)))


def digraphs(case, cov):
    n = case["n"]
    for bits in itertools.product((0, 1), repeat=n * (n - 1)):
        bits = tuple(case["first"]) + bits
        sec = [[j for j in range(n) if bits[i * n + j]] for i in range(n)]
        roots = [i for i in range(n) if not any(i in s for s in sec)]
        reach = set(roots)
        while True:
            more = reach | {j for i in reach for j in sec[i]}
            if more == reach:
                break
            reach = more
        cyclic = has_cycle(sec, range(n))
        cov.step()
        cov.state((n, bits))
        # from a dictionary
        d = {
            "seed": 3,
            "spatial distribution": SPACE,
            "luminosity distribution": LUM,
            "auxiliary samplers": {NAMES[i]: sampler(mu=float(i), secondary=[NAMES[j] for j in sec[i]]) for i in range(n)},
        }
        pop = attempt(lambda: P.PopulationSynth.from_dict(copy.deepcopy(d)).draw_survey(n_samples=3))
        if cyclic:
            check(pop is None, "samplers that depend on each other are accepted", secondaries=sec)
        else:
            check(pop is not None, "samplers that do not depend on each other are refused", secondaries=sec)
            for i in range(n):
                check(getattr(pop, NAMES[i], None) is not None, "a survey lacks a sampler", secondaries=sec)
        # by hand
        parts = [P.NormalAuxSampler(NAMES[i]) for i in range(n)]

        def build():
            for i in range(n):
                for j in sec[i]:
                    parts[i].set_secondary_sampler(parts[j])
            synth = w.World({}).synth
            for i in roots:
                synth.add_observed_quantity(parts[i])
            for i in range(n):
                if i not in roots:
                    ok = attempt(lambda: synth.add_observed_quantity(parts[i]) or True)
                    check(ok is None, "a secondary sampler is attached", secondaries=sec)
            return synth.draw_survey(n_samples=3)

        if has_cycle(sec, reach):
            check(attempt(build) is None, "samplers that depend on each other are drawn", secondaries=sec)
        elif not cyclic:
            pop = build()
            for i in range(n):
                check(getattr(pop, NAMES[i], None) is not None, "a survey lacks a sampler", secondaries=sec)
        cov.outcome((cyclic, len(reach)))


def has_cycle(sec, nodes):
    left = set(nodes)
    while True:
        free = {i for i in left if not any(j in left for j in sec[i])}
        if not free:
            return bool(left)
        left -= free


def amounts(case, cov):
    place, n = case["place"], case["n"]
    for k in list(range(case["top"] + 1)) + [None]:
        spatial = w.make("ConstantSphericalDistribution", {"Lambda": 1.0, "r_max": 2.0})
        lum = None if "derived" in place else w.make("ParetoDistribution" if place != "lum" else McAmountLum, {"Lmin": 1.0, "alpha": 1.5})
        synth = P.PopulationSynth(spatial, lum, seed=3)
        names = []

        def part(count):
            """The component, set to return so many"""
            if place == "lum":
                lum.count = count
            elif place in ("flux", "dist", "space", "top sel", "secondary sel", "below derived sel"):
                parts["sel"].count = count
            elif place.endswith("true"):
                parts["x"].true_count = count
            elif place.endswith("obs"):
                parts["x"].obs_count = count
            else:
                parts["x"].luminosity_count = count

        parts = {}
        if place == "flux":
            parts["sel"] = McAmountSel()
            synth.set_flux_selection(parts["sel"])
        elif place == "dist":
            parts["sel"] = McAmountSel()
            synth.set_distance_selection(parts["sel"])
        elif place == "space":
            parts["sel"] = McAmountSpace()
            synth.add_spatial_selector(parts["sel"])
        elif place.startswith("derived"):
            parts["x"] = McAmountDerived("x")
            synth.add_observed_quantity(parts["x"])
            names = ["x"]
        elif place != "lum":
            parts["x"] = McAmount("x")
            names = ["x"]
            if place.endswith("sel"):
                parts["sel"] = McAmountSel()
                parts["x"].set_selection_probability(parts["sel"])
            if place.startswith("top"):
                synth.add_observed_quantity(parts["x"])
            else:
                y = P.NormalAuxSampler("y") if place.startswith("secondary") else McAmountDerived("y")
                y.set_secondary_sampler(parts["x"])
                synth.add_observed_quantity(y)
                names = ["x", "y"]
        before = survey(synth, names, n)
        part(k)
        pop = attempt(lambda: synth.draw_survey(n_samples=n, flux_sigma=0.2))
        cov.step()
        right = k is None or k == n
        check((pop is not None) == right, "a component that returns another number of values is accepted" if pop is not None else "a component that returns the right number of values is refused", place=place, asked=n, returned=k)
        if pop is not None:
            w.same_survey(before, w.snapshot(pop, names), "a survey of the same number of values")
        part(None)
        w.same_survey(before, survey(synth, names, n), "the survey after one that was refused")
        cov.outcome((place, n, k, right))
