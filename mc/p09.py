"""
P09: a synth restored from its dictionary or YAML file is the same synth.

Every spatial distribution x luminosity source, every sampler x selection x
quantity it acts on, every slot x selection, all dependency graphs, a lattice of
values for every parameter, the hand written variants of the documentation, and
all sequences of restorations in between changes. Oracle: the dictionary and the
surveys of the original, and the parameters that were put into the specification.
"""
import copy
import itertools
import os

import numpy as np
import yaml

from mc.core import Violation, check
from mc import world as w
from mc import p05
from popsynth.auxiliary_sampler import AuxiliaryParameter
from popsynth.distribution import DistributionParameter
from popsynth.selection_probability.selection_probability import SelectionParameter
from popsynth.selection_probability.spatial_selection import GalacticPlaneSelection

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: exhaustive enumeration of configurations and of restoration sequences"
BOUNDS = {
    "quick": "9 spatial x 9 luminosity sources x 2 seeds; 11 samplers x observed x 12 selections x 4 roles; 3 slots x all selections x all quantities x 3 luminosity sources; all 572 graphs of <= 4 samplers x 2 orders x derived; 40 graphs of 6 to 15 samplers; also with names such as 'a b', 'items', '1' and 'null'; 9 values per parameter of 27 classes; 60 hand written variants; 648 combinations of classes with parameters that can not be set; sequences of <= 3 of 8 operations on 8 configurations",
    "thorough": "as quick with pairs of slots x all selections, 29853 graphs of <= 5 samplers and sequences of <= 4 operations",
}
ASSUMPTIONS = [
    "custom samplers have no constructor arguments other than their name and whether they are observed (others are not part of the dictionary)",
    "names of samplers are unique",
]
CHUNK = 8

P = w.popsynth

AUX = {
    "NormalAuxSampler": {"mu": 1.5, "tau": 0.2, "sigma": 0.1},
    "DeltaAuxSampler": {"xp": 1.5, "sigma": 0.2},
    "LogNormalAuxSampler": {"mu": 0.5, "tau": 0.3, "sigma": 0.1},
    "Log10NormalAuxSampler": {"mu": 0.5, "tau": 0.3, "sigma": 0.1},
    "TruncatedNormalAuxSampler": {"mu": 2.0, "tau": 1.0, "lower": 0.5, "upper": 4.0, "sigma": 0.2},
    "TruncatedLogNormalAuxSampler": {"mu": 0.5, "tau": 0.3, "lower": 0.5, "upper": 4.0, "sigma": 0.1},
    "TruncatedLog10NormalAuxSampler": {"mu": 0.2, "tau": 0.3, "lower": 0.5, "upper": 4.0, "sigma": 0.1},
    "ParetoAuxSampler": {"xmin": 1.5, "alpha": 2.0, "sigma": 0.1},
    "PowerLawAuxSampler": {"xmin": 1.5, "xmax": 4.0, "alpha": -1.5, "sigma": 0.1},
    "BrokenPowerLawAuxSampler": {"xmin": 1.0, "alpha": -0.5, "xbreak": 2.0, "beta": -2.5, "xmax": 5.0, "sigma": 0.1},
    "ViewingAngleSampler": {"max_angle": 60.0},
}

USES = ("use_obs_value", "use_distance", "use_luminosity", "use_flux")


def selections(use):
    """All selections that can act on some quantities, with parameters about value 1.5"""
    for u in use:
        k = {u: True}
        yield ["LowerBound", {"boundary": 1.5}, k]
        yield ["UpperBound", {"boundary": 1.5}, k]
        yield ["BoxSelection", {"vmin": 1.0, "vmax": 2.0}, k]
        yield ["SoftSelection", {"boundary": 1.5, "strength": 4.0}, k]
    yield ["BernoulliSelection", {"probability": 0.6}]
    yield ["BernoulliSelection", {}]
    yield ["UnitySelection", {}]


LUMS = dict(w.LUM)

DERIVED = dict(
    lum=None,
    aux=[dict(name="f", type="NormalAuxSampler"), dict(name="der", type="McCompute", params={"scale": 2.0}, secondary=["f"])],
    top=["der"],
)


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + v if k in out and isinstance(v, list) and k in ("aux", "top") else v
    return out


def slot_selections(slot):
    if slot == "space":
        yield ["GalacticPlaneSelection", {"b_limit": 30.0}]
        yield ["GalacticPlaneSelection", {"b_limit": 0.0}]
        yield ["DistanceSelection", {"min_distance": 0.5, "max_distance": 1.5}]
        yield ["DistanceSelection", {"min_distance": 0.0, "max_distance": 1.5}]
    elif slot == "flux":
        yield from selections(("use_flux",))
        yield ["HardFluxSelection", {"boundary": 0.1}]
        yield ["HardFluxSelection", {"boundary": 0.0}]
        yield ["SoftFluxSelection", {"boundary": 0.1, "strength": 3.0}]
    else:
        yield from selections(("use_distance", "use_luminosity", "use_flux"))
        yield ["HardFluxSelection", {"boundary": 0.1}]


def specs(tier):
    # distributions
    for sp, lu, seed in itertools.product(w.SPATIAL, list(w.LUM) + ["derived", "both"], (0, 97)):
        base = dict(spatial=w.SPATIAL[sp], seed=seed)
        if lu == "derived":
            yield merge(base, DERIVED)
        elif lu == "both":
            yield merge(base, dict(DERIVED, lum=w.LUM["pareto"]))
        else:
            yield merge(base, dict(lum=w.LUM[lu]))
    # samplers
    for t, obs, sel, role in itertools.product(
        AUX, (True, False), [None] + list(selections(("use_obs_value", "use_distance"))) + list(selections(("use_luminosity",)))[:4], ("top", "secondary", "second", "of derived")
    ):
        if t == "ViewingAngleSampler" and obs:
            continue
        name = "va" if t == "ViewingAngleSampler" else "x"
        a = dict(name=name, type=t, params=AUX[t], sel=sel)
        if t != "ViewingAngleSampler":
            a["observed"] = obs
        b = dict(name="n", type="NormalAuxSampler")
        if role == "top":
            yield dict(aux=[a], top=[name])
        elif role == "secondary":
            yield dict(aux=[a, dict(b, secondary=[name])], top=["n"])
        elif role == "second":
            yield dict(aux=[b, a], top=["n", name])
        else:
            if sel is not None and "use_luminosity" in str(sel):
                continue  # there is no luminosity yet
            yield dict(lum=None, aux=[a, dict(name="e", type="McCompute", secondary=[name])], top=["e"])
    # slots
    for slot in ("flux", "dist", "space"):
        for s in slot_selections(slot):
            for extra in (dict(), dict(DERIVED), dict(aux=[dict(name="n", type="NormalAuxSampler")], top=["n"])):
                yield merge({slot: s}, extra)
    for s1, s2, s3 in itertools.product(*[list(slot_selections(k)) for k in ("flux", "dist", "space")]):
        if tier == "quick" and (s2[0] not in ("BoxSelection", "BernoulliSelection") or s3[0] != "DistanceSelection"):
            continue
        yield dict(flux=s1, dist=s2, space=s3)


def graphs(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for sec in p05.dags(n):
            roots = [i for i in range(n) if not any(i in s for s in sec)]
            for order in (1, -1):
                for derived in [None] + roots:
                    yield dict(kind="graph", sec=sec, order=order, derived=derived)
    for sec in p05.large():
        roots = [i for i in range(len(sec)) if not any(i in s for s in sec)]
        for order in (1, -1):
            for derived in (None, roots[0], roots[-1]):
                yield dict(kind="graph", sec=sec, order=order, derived=derived)
                yield dict(kind="graph", sec=sec, order=order, derived=derived, odd=True)
    for n in (1, 2, 3):
        for sec in p05.dags(n):
            for order in (1, -1):
                yield dict(kind="graph", sec=sec, order=order, derived=None, odd=True)


def graph_spec(c):
    sec = c["sec"]
    n = len(sec)
    names = p05.names_of(c)
    aux = []
    for i in range(n):
        a = dict(name=names[i], type="NormalAuxSampler", params={"mu": float(i), "tau": 1.0 + i, "sigma": 0.5})
        if i == c["derived"]:
            a = dict(name=names[i], type="McCompute", params={"scale": 1.0 + i})
        elif (i + c["order"]) % 3 == 0:
            a["observed"] = False
        elif i % 2:
            a["sel"] = ["BernoulliSelection", {"probability": 0.5 + 0.03 * i}]
        a["secondary"] = [names[j] for j in sec[i]][:: c["order"]]
        aux.append(a)
    top = [names[i] for i in range(n) if not any(i in s for s in sec)][:: c["order"]]
    return dict(aux=aux, top=top, lum=None if c["derived"] is not None else w.LUM["pareto"])


# ---------------------------------------------------------------------------
# values of parameters


def parameter_of(cls, k):
    for x in cls.__mro__:
        if k in x.__dict__:
            return x.__dict__[k]


VALUES = [0, 1, 0.0, 1e-300, 1e300, 0.1, 1 / 3.0, -2.5, 123456789.123456789, 1e-6, 1e51]
TYPES = ["float", "int", "float64", "float32", "int64", "array0"]


def typed(v, t):
    if t == "int":
        return int(v) if v == int(v) else v
    if t == "int64":
        return np.int64(v) if v == int(v) and abs(v) < 2**60 else np.float64(v)
    if t == "float64":
        return np.float64(v)
    if t == "float32":
        return np.float32(v) if abs(v) < 1e30 else np.float64(v)
    if t == "array0":
        return np.array(v)
    return float(v)


def values(tier):
    for kind, reg in (("spatial", w.SPATIAL), ("lum", w.LUM)):
        for name in reg:
            for p in reg[name][1]:
                yield dict(kind="values", where=kind, name=name, parameter=p)
    for t in AUX:
        for p in AUX[t]:
            yield dict(kind="values", where="aux", name=t, parameter=p)
    for slot in ("flux", "dist", "space", "aux sel"):
        use = ("use_obs_value",) if slot == "aux sel" else ()
        for i, s in enumerate(selections(use) if slot == "aux sel" else slot_selections(slot)):
            for p in s[1]:
                yield dict(kind="values", where=slot, name=s, parameter=p)


def values_spec(c):
    where, name = c["where"], c["name"]
    if where in ("spatial", "lum"):
        return dict(**{where: getattr(w, "SPATIAL" if where == "spatial" else "LUM")[name]})
    if where == "aux":
        n = "va" if name == "ViewingAngleSampler" else "x"
        return dict(aux=[dict(name=n, type=name, params=AUX[name])], top=[n])
    if where == "aux sel":
        return dict(aux=[dict(name="x", type="NormalAuxSampler", sel=name)], top=["x"])
    return {where: name}


def run_values(case, cov):
    for v in VALUES:
        for t in TYPES:
            W = w.World(values_spec(case))
            where = case["where"]
            if where == "spatial":
                o = W.spatial
            elif where == "lum":
                o = W.lum
            elif where == "aux":
                o = list(W.samplers.values())[0]
            elif where == "aux sel":
                o = W.selections["x"]
            else:
                o = W.selections[where]
            val = typed(v, t)
            try:
                setattr(o, case["parameter"], val)
            except RuntimeError:
                cov.note("values out of bounds")
                continue
            d = restore_both(W.synth, cov)
            found = find_values(d, case["parameter"])
            check(any(float(x) == float(val) for x in found), "the dictionary lacks the value of a parameter", value=val, found=found)


def find_values(d, key):
    out = []
    for k, v in d.items():
        if k == key:
            out.append(v)
        if isinstance(v, dict):
            out += find_values(v, key)
    return out


# ---------------------------------------------------------------------------


def restore_both(synth, cov, graph=True):
    """Restore from the dictionary and from a file; compare the dictionaries"""
    d = synth.to_dict()
    keep = copy.deepcopy(d)
    r = P.PopulationSynth.from_dict(d)
    cov.step()
    check(w.same(w.plain(d), w.plain(keep)) and list(d) == list(keep), "restoring modified the dictionary that was passed in", before=keep, after=d)
    check(w.same(w.plain(synth.to_dict()), w.plain(keep)), "restoring from its dictionary changed a synth")
    same_dict(keep, r.to_dict(), "the synth restored from its dictionary")
    synth.write_to("synth.yml")
    f = P.PopulationSynth.from_file("synth.yml")
    cov.step()
    same_dict(keep, f.to_dict(), "the synth restored from its YAML file")
    with open("synth.yml") as g:
        raw = yaml.safe_load(g)
    same_dict(keep, raw, "the content of the YAML file")
    os.remove("synth.yml")
    for x, what in ((r, "dictionary"), (f, "YAML file")):
        check(w.graph_key(synth.graph, True) == w.graph_key(x.graph, True), "the synth restored from its %s has another graph" % what)
        check(x.name == synth.name, "the synth restored from its %s has another name" % what)
    restore_both.last = (r, f)
    return keep


def same_dict(a, b, what):
    a, b = w.plain(a), w.plain(b)
    if not w.same(a, b):
        raise Violation("%s has another dictionary" % what, original=a, restored=b)
    check(list(a["auxiliary samplers"]) == list(b["auxiliary samplers"]), "%s has its samplers in another order" % what, original=list(a["auxiliary samplers"]), restored=list(b["auxiliary samplers"]))


def survey(synth, names, n=4, **k):
    return w.snapshot(synth.draw_survey(n_samples=n, **k), names)


def same_draws(synth, names, cov, full=False):
    r, f = restore_both.last
    for k in (dict(), dict(flux_sigma=0.3)):
        a = survey(synth, names, **k)
        for x, what in ((r, "dictionary"), (f, "YAML file")):
            w.same_survey(a, survey(x, names, **k), "the survey of the synth restored from its %s" % what)
            cov.step()
        if k:
            break
    if full:
        a = w.snapshot(synth.draw_survey(), names)
        w.same_survey(a, w.snapshot(r.draw_survey(), names), "the survey of the restored synth")
    cov.outcome(repr(sorted((k, v) for k, v in a.items() if k.startswith("aux") or k == "luminosities")))


def check_spec(spec, d):
    """The dictionary has what was put into the specification"""
    d = w.plain(d)
    sp = spec.get("spatial")
    if sp is not None:
        got = d["spatial distribution"].get(sp[0], {})
        for k, v in sp[1].items():
            check(got.get(k) == v, "the dictionary lacks a parameter of the spatial distribution", parameter=k, dictionary=d)
        if len(sp) > 2:
            check(d["spatial distribution"].get("is_rate") == sp[2]["is_rate"], "the dictionary has the wrong rate convention", dictionary=d)
    lu = spec.get("lum", w.LUM["pareto"])
    if lu is not None:
        got = d["luminosity distribution"].get(lu[0], {})
        for k, v in lu[1].items():
            check(got.get(k) == v, "the dictionary lacks a parameter of the luminosity function", parameter=k, dictionary=d)
    else:
        check("luminosity distribution" not in d, "the dictionary has a luminosity function from nowhere", dictionary=d)
    check(d["seed"] == spec.get("seed", 1234), "the dictionary has another seed", dictionary=d)
    for slot, key in (("flux", "flux selection"), ("dist", "distance selection"), ("space", "spatial selection")):
        s = spec.get(slot)
        if s is None:
            check(not d.get(key), "the dictionary has a selection from nowhere", dictionary=d)
            continue
        check(d.get(key) and list(d[key]) == [s[0]], "the dictionary lacks a selection", slot=slot, dictionary=d)
        got = d[key][s[0]]
        for k, v in (s[1] or {}).items():
            check(got.get(k) == v, "the dictionary lacks a parameter of a selection", parameter=k, dictionary=d)
    names = w.reachable(spec)
    check(set(d["auxiliary samplers"]) == set(names), "the dictionary does not list the reachable samplers", dictionary=d)
    for a in spec.get("aux", []):
        if a["name"] not in names:
            continue
        got = d["auxiliary samplers"][a["name"]]
        check(got["type"] == a["type"], "the dictionary has another sampler type", dictionary=d)
        obs = a.get("observed", a["type"] not in ("McCompute", "ViewingAngleSampler"))
        check(got["observed"] is obs, "the dictionary has another observed flag", dictionary=d)
        check(list(got["secondary"]) == a.get("secondary", []), "the dictionary has other secondaries", dictionary=d)
        for k, v in a.get("params", {}).items():
            check(got.get(k) == v, "the dictionary lacks a parameter of a sampler", parameter=k, dictionary=d)
        s = a.get("sel")
        if s is not None:
            check(list(got["selection"]) == [s[0]], "the dictionary lacks the selection of a sampler", dictionary=d)
            for k, v in s[1].items():
                check(got["selection"][s[0]].get(k) == v, "the dictionary lacks a parameter of the selection of a sampler", parameter=k, dictionary=d)


# ---------------------------------------------------------------------------
# hand written configurations

HAND = dict(
    seed=[1, 1234, 7.0],
    lum=["pareto", "int", "null free", "absent derived"],
    spatial=["rate true", "rate false", "rate absent", "rate first", "plain"],
    flux=["absent", "null", "hard", "numeric string", "null parameters", "use flag"],
    dist=["absent", "null", "bernoulli", "null parameters", "upper", "luminosity"],
    space=["absent", "null", "plane", "distance"],
    aux=["absent", "empty", "documented", "secondary string", "secondary dict", "secondary null", "secondary absent", "selection null", "selection absent", "selection", "init null", "init", "forward"],
)


def hand_cases():
    base = {k: v[0] for k, v in HAND.items()}
    seen = set()
    for a, b in itertools.combinations(HAND, 2):
        for x, y in itertools.product(HAND[a], HAND[b]):
            c = dict(base, **{a: x, b: y})
            key = repr(sorted(c.items(), key=str))
            if key in seen:
                continue
            seen.add(key)
            yield dict(kind="hand", **c)


class McInit(P.AuxiliarySampler):
    """A custom sampler that is configured by its constructor"""

    _auxiliary_sampler_name = "McInit"

    mu = P.AuxiliaryParameter(default=1)

    def __init__(self, name, observed=True, offset=0.0, scale=1.0):
        super().__init__(name, observed=observed)
        self.offset = offset
        self.scale = scale

    def true_sampler(self, size):
        self._true_values = self.offset + self.scale * np.random.normal(self.mu, 1, size=size)

    def observation_sampler(self, size):
        self._obs_values = self._true_values + 1


def hand_written(c):
    """The dictionary, and the synth it stands for put together with classes"""
    d = {}
    spec = dict(seed=int(c["seed"]))
    d["seed"] = c["seed"]
    aux, top, extra = [], [], []
    if c["lum"] == "pareto":
        d["luminosity distribution"] = {"ParetoDistribution": {"Lmin": 2.0, "alpha": 1.5}}
        spec["lum"] = ["ParetoDistribution", {"Lmin": 2.0, "alpha": 1.5}]
    elif c["lum"] == "int":
        d["luminosity distribution"] = {"ParetoDistribution": {"Lmin": 2, "alpha": 2}}
        spec["lum"] = ["ParetoDistribution", {"Lmin": 2.0, "alpha": 2.0}]
    elif c["lum"] == "null free":
        d["luminosity distribution"] = {"LogUniLuminiosityDistribution": {"Lmin": 2, "Lmax": 9.5}}
        spec["lum"] = ["LogUniLuminiosityDistribution", {"Lmin": 2.0, "Lmax": 9.5}]
    else:
        spec["lum"] = None
    par = {"Lambda": 0.2, "delta": -2, "r_max": 2}
    if c["spatial"] == "plain":
        d["spatial distribution"] = {"ConstantSphericalDistribution": {"Lambda": 1, "r_max": 2.0}}
        spec["spatial"] = ["ConstantSphericalDistribution", {"Lambda": 1.0, "r_max": 2.0}]
    else:
        sd = {"ZPowerCosmoDistribution": par}
        if c["spatial"] == "rate first":
            sd = {"is_rate": False, "ZPowerCosmoDistribution": par}
        elif c["spatial"] != "rate absent":
            sd["is_rate"] = c["spatial"] == "rate true"
        d["spatial distribution"] = sd
        rate = c["spatial"] in ("rate true", "rate absent")
        spec["spatial"] = ["ZPowerCosmoDistribution", {"Lambda": 0.2, "delta": -2.0, "r_max": 2.0}, {"is_rate": rate}]
    if c["flux"] != "absent":
        d["flux selection"], spec["flux"] = {
            "null": (None, None),
            "hard": ({"HardFluxSelection": {"boundary": 1e-59}}, ["HardFluxSelection", {"boundary": 1e-59}]),
            "numeric string": ({"HardFluxSelection": {"boundary": "1e-59"}}, ["HardFluxSelection", {"boundary": 1e-59}]),
            "null parameters": ({"BernoulliSelection": None}, ["BernoulliSelection", {}]),
            "use flag": ({"UpperBound": {"boundary": 1.0}}, ["UpperBound", {"boundary": 1.0}, {"use_flux": True}]),
        }[c["flux"]]
    if c["dist"] != "absent":
        d["distance selection"], spec["dist"] = {
            "null": (None, None),
            "bernoulli": ({"BernoulliSelection": {"probability": 0.3}}, ["BernoulliSelection", {"probability": 0.3}]),
            "null parameters": ({"BernoulliSelection": None}, ["BernoulliSelection", {}]),
            "upper": ({"UpperBound": {"boundary": 1.2}}, ["UpperBound", {"boundary": 1.2}, {"use_distance": True}]),
            "luminosity": ({"UpperBound": {"boundary": 3, "use_luminosity": True}}, ["UpperBound", {"boundary": 3.0}, {"use_luminosity": True}]),
        }[c["dist"]]
    if c["space"] != "absent":
        d["spatial selection"], spec["space"] = {
            "null": (None, None),
            "plane": ({"GalacticPlaneSelection": {"b_limit": 20}}, ["GalacticPlaneSelection", {"b_limit": 20.0}]),
            "distance": ({"DistanceSelection": {"min_distance": 0.5, "max_distance": 1.5}}, ["DistanceSelection", {"min_distance": 0.5, "max_distance": 1.5}]),
        }[c["space"]]
    one = dict(type="NormalAuxSampler", observed=False, mu=0, sigma=1)
    two = dict(type="NormalAuxSampler", observed=True, mu=3, tau=2)
    s_one = dict(name="one", type="NormalAuxSampler", observed=False, params={"mu": 0.0, "sigma": 1.0})
    s_two = dict(name="two", type="NormalAuxSampler", params={"mu": 3.0, "tau": 2.0})
    k = c["aux"]
    if k != "absent":
        A = {}
        if k == "documented":
            A = dict(one=dict(one, **{"selection": None, "secondary": [], "init variables": None}), two=dict(two, **{"selection": None, "secondary": ["one"], "init variables": None}))
        elif k == "forward":
            A = dict(two=dict(two, secondary=["one"]), one=one)
        elif k.startswith("secondary"):
            A = dict(one=one, two=dict(two))
            x = k.split()[1]
            if x != "absent":
                A["two"]["secondary"] = {"string": "one", "dict": {"one": {}}, "null": None}[x]
        elif k.startswith("selection"):
            A = dict(one=one, two=dict(two, secondary=["one"]))
            if k == "selection null":
                A["two"]["selection"] = None
            elif k == "selection":
                A["two"]["selection"] = {"UpperBound": {"boundary": 4}}
                A["one"] = dict(one, selection={"BernoulliSelection": None})
                s_two["sel"] = ["UpperBound", {"boundary": 4.0}, {"use_obs_value": True}]
                s_one["sel"] = ["BernoulliSelection", {}]
        elif k == "init null":
            A = dict(one=dict(one, **{"init variables": None}), two=dict(two, secondary=["one"]))
        elif k == "init":
            A = dict(one=dict(type="McInit", observed=True, mu=2, **{"init variables": {"offset": 5.0, "scale": 2.0}}))
            aux = [dict(name="one", type="McInit", observed=True, params={"mu": 2.0}, kwargs={"offset": 5.0, "scale": 2.0})]
            top = ["one"]
        d["auxiliary samplers"] = A
        if k not in ("init", "empty"):
            aux = [s_one, s_two]
            if k in ("secondary null", "secondary absent"):
                top = ["one", "two"]
            else:
                s_two["secondary"] = ["one"]
                top = ["two"]
    if c["lum"] == "absent derived":
        d.setdefault("auxiliary samplers", {})["der"] = dict(type="McCompute", observed=False, scale=2)
        aux = aux + [dict(name="der", type="McCompute", params={"scale": 2.0})]
        top = top + ["der"]
    spec["aux"], spec["top"] = aux, top
    return d, spec


def run_hand(case, cov):
    d, spec = hand_written(case)
    keep = copy.deepcopy(d)
    a = P.PopulationSynth.from_dict(d)
    check(w.same(d, keep), "restoring modified the dictionary that was passed in", before=keep, after=d)
    with open("hand.yml", "w") as f:
        yaml.safe_dump(d, f, sort_keys=False)
    b = P.PopulationSynth.from_file("hand.yml")
    os.remove("hand.yml")
    W = w.World(spec)
    names = list(W.samplers)
    exp = w.plain(W.synth.to_dict())
    for x in (a, b):
        got = w.plain(x.to_dict())
        check(w.same(got, exp), "the synth of a hand written configuration is another one than that put together with classes", got=got, expected=exp)
        w.same_survey(survey(W.synth, names), survey(x, names), "the survey of a hand written configuration")
        cov.step(2)
    restore_both(a, cov)
    cov.state(repr(sorted(keep.items(), key=str)))


# ---------------------------------------------------------------------------
# histories

OPS = ["draw", "dict", "yaml", "change", "attach", "replace", "clean", "stored"]


def sequences(tier):
    from mc import p06

    for name in p06.WORLDS:
        for n in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product(OPS, repeat=n):
                if "dict" in seq or "yaml" in seq or "stored" in seq:
                    yield dict(kind="history", world=name, seq=seq)


def run_history(case, cov):
    """The same operations on a synth that is restored on the way and on one that is not"""
    from mc import p06

    spec = p06.spec_of(case["world"])
    A = w.World(spec).synth  # restored on the way
    B = w.World(spec).synth  # never restored
    names = set(w.World(spec).samplers) | {"extra"}

    k = 0
    for op in case["seq"]:
        k += 1
        if op == "draw":
            if A.luminosity_distribution is not None or A._has_derived_luminosity:
                A.draw_survey(n_samples=2)
                B.draw_survey(n_samples=3)
        elif op == "dict":
            A = P.PopulationSynth.from_dict(A.to_dict())
        elif op == "yaml":
            A.write_to("h.yml")
            A = P.PopulationSynth.from_file("h.yml")
        elif op == "stored":
            try:
                pop = A.draw_survey(n_samples=2)
            except RuntimeError:
                continue
            A = P.PopulationSynth.from_dict(pop.pop_synth)
        elif op == "change":
            for s in (A, B):
                s.spatial_distribution.r_max = s.spatial_distribution.r_max * 0.75
                if s.luminosity_distribution is not None:
                    d = s.luminosity_distribution
                    for p, v in dict(d.truth).items():
                        setattr(d, p, v * 1.25)
        elif op == "attach":
            for s in (A, B):
                o = P.NormalAuxSampler(name="extra")
                o.mu, o.tau, o.sigma = 1.0 + k, 2.0, 0.25
                try:
                    s.add_observed_quantity(o)
                except RuntimeError:
                    pass
        elif op == "replace":
            for s in (A, B):
                f = P.UpperBound(use_flux=True)
                f.boundary = 1e-3
                s.set_flux_selection(f)
                f = P.BernoulliSelection()
                f.probability = 0.25
                s.set_distance_selection(f)
        elif op == "clean":
            A.clean()
            B.clean(reset=True)
        cov.step()
        same_dict(B.to_dict(), A.to_dict(), "after %s, the synth restored on the way" % op)
    check(w.graph_key(A.graph, True) == w.graph_key(B.graph, True), "the synth restored on the way has another graph")
    try:
        b = B.draw_survey(n_samples=4, flux_sigma=0.2)
    except RuntimeError:
        b = None
    try:
        a = A.draw_survey(n_samples=4, flux_sigma=0.2)
    except RuntimeError:
        a = None
    check((a is None) == (b is None), "only one of the synths can be drawn")
    if a is not None:
        have = [n for n in names if hasattr(b, n)]
        # model spaces are not part of the dictionary
        w.same_survey(strip(w.snapshot(b, have)), strip(w.snapshot(a, have)), "the survey of the synth restored on the way")
        cov.outcome(a.luminosities.tobytes())
    cov.state((case["world"], case["seq"]))


def strip(s):
    s = dict(s)
    s["stan"] = {k: v for k, v in s["stan"].items() if k not in ("fg",)}
    return s


# classes of the user that have a parameter which can not be set


class McFixedSpatial(P.ConstantSphericalDistribution):
    _distribution_name = "McFixedSpatial"
    scale = DistributionParameter(default=2, free=False)

    def dNdV(self, r):
        return super().dNdV(r) * self.scale


class McFixedCosmo(P.ZPowerCosmoDistribution):
    _distribution_name = "McFixedCosmo"
    scale = DistributionParameter(default=0.5, free=False)

    def dNdV(self, r):
        return super().dNdV(r) * self.scale


class McFixedLum(P.ParetoDistribution):
    _distribution_name = "McFixedLum"
    scale = DistributionParameter(default=3.0, free=False)

    def draw_luminosity(self, size):
        return super().draw_luminosity(size) * self.scale


class McFixedAux(P.NormalAuxSampler):
    _auxiliary_sampler_name = "McFixedAux"
    scale = AuxiliaryParameter(default=2, vmin=1, vmax=3, free=False)

    def true_sampler(self, size):
        super().true_sampler(size)
        self._true_values = self._true_values * self.scale


class McFixedDerived(P.DerivedLumAuxSampler):
    _auxiliary_sampler_name = "McFixedDerived"
    scale = AuxiliaryParameter(default=4.0, vmin=0, free=False)

    def __init__(self, name):
        super().__init__(name, uses_distance=False)

    def true_sampler(self, size):
        self._true_values = np.random.uniform(1, 2, size)

    def compute_luminosity(self):
        return self._true_values * self.scale


class McFixedSel(P.BernoulliSelection):
    _selection_name = "McFixedSel"
    scale = SelectionParameter(default=0.5, vmin=0, vmax=1, free=False)

    def draw(self, size):
        super().draw(size)
        self._selection = self._selection & (np.random.uniform(size=size) < self.scale)


class McFixedSpace(GalacticPlaneSelection):
    _selection_name = "McFixedSpace"
    scale = SelectionParameter(default=3, free=False)

    def draw(self, size):
        super().draw(size)
        self._selection = self._selection & (np.arange(size) % self.scale != 1)


FIXED = {
    "spatial": [None, ["McFixedSpatial", {"Lambda": 1.5, "r_max": 2.0}], ["McFixedCosmo", {"Lambda": 1.5, "delta": 0.5, "r_max": 2.0}]],
    "lum": [None, ["McFixedLum", {"Lmin": 2.0, "alpha": 1.5}], "derived"],
    "flux": [None, ["McFixedSel", {"probability": 0.9}]],
    "dist": [None, ["McFixedSel", {}]],
    "space": [None, ["McFixedSpace", {"b_limit": 10.0}]],
    "aux": [None, "x", "y"],
    "sel": [None, "x", "y"],
}


def fixed_synth(c):
    """A synth of the chosen roles taken by classes with a fixed parameter"""
    spec = {k: c[k] for k in ("spatial", "dist", "flux", "space") if c[k] is not None}
    if c["lum"] not in (None, "derived"):
        spec["lum"] = c["lum"]
    elif c["lum"] == "derived":
        spec["lum"] = None
    aux = []
    for name, secondary in (("x", ["y"]), ("y", [])):
        a = dict(name=name, type="McFixedAux" if c["aux"] == name else "NormalAuxSampler", params={"mu": 1.0}, secondary=secondary)
        if c["sel"] == name:
            a["sel"] = ["McFixedSel", {"probability": 0.8}]
        aux.append(a)
    spec["aux"] = aux
    spec["top"] = ["x"]
    if c["lum"] == "derived":
        spec["aux"] = aux + [dict(name="e", type="McFixedDerived")]
        spec["top"] = ["x", "e"]
    return w.World(spec)


def fixed_cases():
    for values in itertools.product(*FIXED.values()):
        yield dict(zip(FIXED, values), kind="fixed")


def run_fixed(case, cov):
    W = fixed_synth(case)
    names = list(W.samplers)
    d = restore_both(W.synth, cov)
    same_draws(W.synth, names, cov)
    cov.state(repr(w.plain(d)))


def cases(tier):
    seen = set()
    for s in specs(tier):
        yield dict(kind="spec", spec=s)
    yield from graphs(tier)
    yield from values(tier)
    yield from hand_cases()
    yield from sequences(tier)
    yield from fixed_cases()


def run(case, cov):
    kind = case["kind"]
    if kind == "values":
        return run_values(case, cov)
    if kind == "hand":
        return run_hand(case, cov)
    if kind == "history":
        return run_history(case, cov)
    if kind == "fixed":
        return run_fixed(case, cov)
    spec = case["spec"] if kind == "spec" else graph_spec(case)
    W = w.World(spec)
    names = list(W.samplers)
    d = restore_both(W.synth, cov)
    check_spec(spec, d)
    same_draws(W.synth, names, cov, full=kind == "spec")
    cov.state(repr(w.plain(d)))
    # a second generation
    same_dict(d, restore_both.last[1].to_dict(), "the restored synth, after a draw,")
