"""
Building synths from JSON specifications through the public interface, scripted
samplers and selections (through the documented extension points), and
comparisons of surveys.
"""
import io
import logging
import math

import networkx as nx
import numpy as np

import popsynth
from popsynth import (
    AuxiliarySampler,
    DerivedLumAuxSampler,
    PopulationSynth,
    SelectionProbability,
)
from popsynth.utils.registry import (
    auxiliary_parameter_registry,
    distribution_registry,
    selection_registry,
)

from mc.core import HarnessError, Violation, check, digest

# the harnesses do not look at the logs (apart from P17)
logging.disable(logging.CRITICAL)
popsynth.silence_progress_bars()
np.seterr(all="ignore")

LOG = []  # events of the scripted components


class McFault(Exception):
    """The injected failure"""


FAULT = {"at": None, "n": 0}


def fault_point(name):
    """A point at which a scripted component may fail"""
    FAULT["n"] += 1
    if FAULT["at"] is not None and FAULT["n"] == FAULT["at"]:
        raise McFault(name)


class McMask(SelectionProbability):
    """A selection with a scripted answer"""

    _selection_name = "McMask"

    def __init__(self, name="mask", mask=(), tag="mask"):
        super().__init__(name=name)
        self.mask = mask
        self.tag = tag

    def draw(self, size):
        fault_point("selection " + self.tag)
        if callable(self.mask):
            sel = self.mask(size)
        else:
            sel = self.mask
        sel = np.array(sel, dtype=bool)
        LOG.append(
            (
                "select",
                self.tag,
                size,
                _frozen(self._observed_flux),
                _frozen(self._distance),
                _frozen(self._luminosity),
                _frozen(self._observed_value),
            )
        )
        if len(sel) != size:
            raise Violation(
                "the selection %s was asked about %d objects instead of %d"
                % (self.tag, size, len(sel))
            )
        self._selection = sel


class McSpatialMask(popsynth.SpatialSelection):
    """A spatial selection with a scripted answer"""

    _selection_name = "McSpatialMask"

    def __init__(self, name="spatial mask", mask=(), tag="space"):
        super().__init__(name=name)
        self.mask = mask
        self.tag = tag

    draw = McMask.draw


def _frozen(x):
    return None if x is None else tuple(np.asarray(x, dtype=float).tolist())


def code(name):
    """A number that identifies a sampler"""
    return sum((i + 1) * ord(c) for i, c in enumerate(name)) % 97 + 1


def scripted_true(name, size, secondaries, distance=None, luminosity=None):
    """The values a scripted sampler draws, from what it sees"""
    out = code(name) * 100.0 + np.arange(size, dtype=float)
    for s in sorted(secondaries):
        t, o = secondaries[s]
        out = out + 0.5 * np.asarray(t, float) + 0.25 * np.asarray(o, float)
    if distance is not None:
        out = out + 1e-3 * np.asarray(distance, float)
    if luminosity is not None:
        out = out + 1e-5 * np.asarray(luminosity, float)
    return out


def scripted_obs(name, true):
    return 2.0 * np.asarray(true, float) + code(name)


class McAux(AuxiliarySampler):
    """A sampler with scripted values"""

    _auxiliary_sampler_name = "McAux"

    gain = popsynth.AuxiliaryParameter(default=1)

    def __init__(self, name, observed=True, uses_distance=False, uses_luminosity=False):
        super().__init__(
            name,
            observed=observed,
            uses_distance=uses_distance,
            uses_luminosity=uses_luminosity,
        )

    def true_sampler(self, size):
        fault_point("true " + self.name)
        sec = {}
        for k, v in self._secondary_samplers.items():
            if v.true_values is None or len(v.true_values) != size:
                raise Violation("%s was drawn before its secondary %s" % (self.name, k))
            sec[k] = (v.true_values, v.obs_values)
        if self.uses_luminosity and self._luminosity is None:
            raise AttributeError("no luminosities")
        LOG.append(("true", self.name, size))
        self._true_values = self.gain * scripted_true(
            self.name,
            size,
            sec,
            self._distance if self.uses_distance else None,
            self._luminosity if self.uses_luminosity else None,
        )

    def observation_sampler(self, size):
        fault_point("obs " + self.name)
        LOG.append(("obs", self.name, size))
        self._obs_values = scripted_obs(self.name, self._true_values)


class McDerived(DerivedLumAuxSampler):
    """A derived luminosity sampler with scripted values"""

    _auxiliary_sampler_name = "McDerived"

    gain = popsynth.AuxiliaryParameter(default=1)

    def __init__(self, name, uses_distance=False):
        super().__init__(name, uses_distance=uses_distance)

    def true_sampler(self, size):
        fault_point("true " + self.name)
        sec = {}
        for k, v in self._secondary_samplers.items():
            if v.true_values is None or len(v.true_values) != size:
                raise Violation("%s was drawn before its secondary %s" % (self.name, k))
            sec[k] = (v.true_values, v.obs_values)
        LOG.append(("true", self.name, size))
        self._true_values = self.gain * scripted_true(
            self.name, size, sec, self._distance if self.uses_distance else None
        )

    def compute_luminosity(self):
        fault_point("luminosity " + self.name)
        LOG.append(("luminosity", self.name))
        out = 3.0 * np.asarray(self._true_values, float) + 1.0
        for k, v in sorted(self._secondary_samplers.items()):
            out = out + np.asarray(v.true_values, float)
        return out


class McCompute(DerivedLumAuxSampler):
    """A derived luminosity sampler whose restored form needs its secondary"""

    _auxiliary_sampler_name = "McCompute"

    scale = popsynth.AuxiliaryParameter(default=1, vmin=0)

    def __init__(self, name="derived", uses_distance=False):
        super().__init__(name, uses_distance=uses_distance)

    def true_sampler(self, size):
        self._true_values = np.random.uniform(1, 2, size=size)

    def compute_luminosity(self):
        out = self.scale * self._true_values
        for k, v in sorted(self._secondary_samplers.items()):
            out = out * (1 + np.abs(v.true_values))
        return out


# ---------------------------------------------------------------------------
# specifications


def make(cls, params=None, kwargs=None, registry=None):
    c = cls if not isinstance(cls, str) else lookup(cls, registry)
    o = c(**(kwargs or {}))
    for k, v in (params or {}).items():
        setattr(o, k, v)
    return o


def lookup(name, registry=None):
    for r in (registry,) if registry is not None else (
        distribution_registry,
        selection_registry,
        auxiliary_parameter_registry,
    ):
        try:
            return r.get_class(name)
        except KeyError:
            continue
    raise Violation("the class %s is not registered" % name)


class World:
    """A synth along with the objects attached to it"""

    def __init__(self, spec):
        self.spec = spec
        sp = spec.get("spatial") or ["ConstantSphericalDistribution", {"Lambda": 1.0, "r_max": 2.0}]
        self.spatial = make(*sp, registry=distribution_registry)
        lu = spec.get("lum", ["ParetoDistribution", {"Lmin": 1.0, "alpha": 1.5}])
        self.lum = make(*lu, registry=distribution_registry) if lu is not None else None
        self.synth = PopulationSynth(
            self.spatial, luminosity_distribution=self.lum, seed=spec.get("seed", 1234)
        )
        self.samplers = {}
        self.selections = {}
        for a in spec.get("aux", []):
            self.samplers[a["name"]] = self.make_sampler(a)
        for a in spec.get("aux", []):
            for s in a.get("secondary", []):
                self.samplers[a["name"]].set_secondary_sampler(self.samplers[s])
        for name in spec.get("top", []):
            self.synth.add_observed_quantity(self.samplers[name])
        for slot, attach in (
            ("flux", self.synth.set_flux_selection),
            ("dist", self.synth.set_distance_selection),
            ("space", self.synth.add_spatial_selector),
        ):
            if spec.get(slot) is not None:
                s = self.make_selection(spec[slot], slot)
                self.selections[slot] = s
                attach(s)
        for m in spec.get("model_spaces", []):
            self.synth.add_model_space(m[0], m[1], m[2], log=m[3])

    def make_sampler(self, a):
        kwargs = dict(a.get("kwargs", {}))
        t = a["type"]
        if t not in ("ViewingAngleSampler", "RASampler", "DecSampler"):
            kwargs["name"] = a["name"]
            if "observed" in a:
                kwargs["observed"] = a["observed"]
        o = make(t, a.get("params"), kwargs, registry=auxiliary_parameter_registry)
        if a.get("sel") is not None:
            s = self.make_selection(a["sel"], a["name"])
            self.selections[a["name"]] = s
            o.set_selection_probability(s)
        return o

    def make_selection(self, s, tag):
        if s[0] in ("McMask", "McSpatialMask"):
            c = McMask if s[0] == "McMask" else McSpatialMask
            return c(mask=s[1], tag=tag)
        return make(*s, registry=selection_registry)


def reachable(spec):
    """The names of all samplers that are reachable from the attached ones"""
    by = {a["name"]: a for a in spec.get("aux", [])}
    out = []

    def visit(n):
        if n in out:
            return
        for s in by[n].get("secondary", []):
            visit(s)
        out.append(n)

    for n in spec.get("top", []):
        visit(n)
    return out


# ---------------------------------------------------------------------------
# surveys


def arr(x):
    return np.array(np.asarray(x))


def plain(x):
    """Numpy scalars and containers as builtin types"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def graph_key(g, attrs=False):
    if g is None:
        return None
    nodes = sorted(map(str, g.nodes))
    edges = sorted((str(a), str(b)) for a, b in g.edges)
    if attrs:
        nodes = sorted((str(n), bool(d.get("observed", False))) for n, d in g.nodes(data=True))
    return (g.is_directed(), tuple(nodes), tuple(edges))


def _bytes(a):
    a = np.ascontiguousarray(np.asarray(a, dtype=float))
    return a.tobytes()


def columns(pop, names=()):
    """All per-object columns of a survey as plain arrays"""
    out = {}

    def put(key, v):
        out[key] = arr(v)
        out[key + ".latent"] = arr(v.latent)

    put("luminosities", pop.luminosities)
    put("distances", pop.distances)
    put("fluxes", pop.fluxes)
    put("theta", pop.theta)
    put("phi", pop.phi)
    if pop.probability is not None:
        put("probability", pop.probability)
    for n in names:
        put("aux:" + n, getattr(pop, n))
    out["selection"] = arr(pop.selection)
    out["known_distances"] = arr(pop.known_distances)
    st = pop.to_stan_data()
    out["r_idx"] = arr(st["r_idx"])
    out["r_nidx"] = arr(st["r_nidx"])
    return out


def snapshot(pop, names=(), with_name=True):
    """Everything that describes a survey, in a comparable form"""
    c = columns(pop, names)
    out = {k: (v.shape, _bytes(v)) for k, v in c.items()}
    out["selection"] = tuple(bool(x) for x in c["selection"])
    out["flux_sigma"] = float(pop.flux_sigma)
    out["truth"] = plain(pop.truth)
    out["spatial"] = plain(pop.spatial_parameters)
    out["lumpar"] = plain(pop.luminosity_parameters)
    out["n"] = (int(pop.n_objects), int(pop.n_detections), int(pop.n_non_detections))
    out["graph"] = graph_key(pop.graph)
    out["pop_synth"] = order_free(plain(pop.pop_synth))
    st = pop.to_stan_data()
    out["stan"] = {
        k: (np.shape(v), _bytes(v)) if isinstance(v, np.ndarray) else v for k, v in plain_stan(st).items()
    }
    return out


def plain_stan(st):
    return {k: (np.asarray(v) if isinstance(v, np.ndarray) else plain(v)) for k, v in st.items()}


def order_free(d):
    return d


def diff(a, b):
    """The keys in which two snapshots differ"""
    keys = sorted(set(a) | set(b))
    out = []
    for k in keys:
        if k not in a or k not in b:
            out.append(k)
        elif not same(a[k], b[k]):
            out.append(k)
    return out


def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (math.isnan(x) and math.isnan(y))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return x == y


def same_survey(a, b, what, ignore=()):
    d = [k for k in diff(a, b) if k not in ignore]
    if d:
        k = d[0]
        raise Violation(
            "%s: %s differs" % (what, ", ".join(d)),
            first=_show(a.get(k)),
            second=_show(b.get(k)),
        )


def _show(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], bytes):
        return np.frombuffer(x[1]).reshape(x[0]).tolist() if len(x[1]) % 8 == 0 else x
    return x


def masks(n):
    """All patterns of n booleans, the all-true one first"""
    for k in range(2**n):
        yield tuple(not (k >> i) & 1 for i in range(n))


class quiet_output:
    """Nothing is printed"""

    def __enter__(self):
        import sys

        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys

        sys.stdout = self.old


class progress:
    """Show progress bars, but to nobody"""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        import sys

        self.err = sys.stderr
        if self.on:
            sys.stderr = io.StringIO()
            popsynth.show_progress_bars()

    def __exit__(self, *a):
        import sys

        sys.stderr = self.err
        popsynth.silence_progress_bars()


SPATIAL = {
    "const": ["ConstantSphericalDistribution", {"Lambda": 1.0, "r_max": 2.0}],
    "zpow": ["ZPowerSphericalDistribution", {"Lambda": 1.0, "delta": -1.5, "r_max": 2.0}],
    "flat": ["FlatlandDistribution", {"Lambda": 2.0, "r_max": 3.0}],
    "spiral": [
        "SpiralGalaxyDistribution",
        {"rho": 1e-3, "a": 1.64, "b": 4.01, "R1": 0.55, "R0": 8.5, "r_max": 15.0},
    ],
    "sfr": [
        "SFRDistribution",
        {"r0": 0.5, "a": 0.2, "rise": 1.0, "decay": 3.0, "peak": 1.5, "r_max": 3.0},
    ],
    "sfr-steady": [
        "SFRDistribution",
        {"r0": 0.5, "a": 0.2, "rise": 1.0, "decay": 3.0, "peak": 1.5, "r_max": 3.0},
        {"is_rate": False},
    ],
    "zpcosmo": ["ZPowerCosmoDistribution", {"Lambda": 0.2, "delta": -2.0, "r_max": 2.0}],
    "zpcosmo-steady": [
        "ZPowerCosmoDistribution",
        {"Lambda": 0.2, "delta": -2.0, "r_max": 2.0},
        {"is_rate": False},
    ],
    "uniform": ["UniformCosmoDistribution", {"r0": 0.3, "zmin": 0.0, "zmax": 2.0, "r_max": 2.0}],
}

LUM = {
    "pareto": ["ParetoDistribution", {"Lmin": 1.0, "alpha": 1.5}],
    "schechter": ["SchechterDistribution", {"Lmin": 2.0, "alpha": 0.5}],
    "lognorm": ["LogNormalDistribution", {"mu": 0.3, "tau": 0.7}],
    "log10norm": ["Log10NormalDistribution", {"mu": 0.3, "tau": 0.5}],
    "bpl": ["BPLDistribution", {"Lmin": 1.0, "alpha": -0.5, "Lbreak": 3.0, "beta": -2.5, "Lmax": 20.0}],
    "loguni": ["LogUniLuminiosityDistribution", {"Lmin": 0.5, "Lmax": 50.0}],
    "delta": ["DeltaDistribution", {"Lp": 3.0}],
}
