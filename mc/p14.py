"""
P14: parameters keep their declared bounds, defaults and independence.

All sequences, up to a depth, of setting (to values below, at, between, at and
above the bounds, and of other kinds), reading and copying on two objects of
every registered class of distributions, samplers and selections, and on classes
of our own that use everything a declaration can say. The model is the table of
declarations below with one dictionary of values per object.
"""
import copy
import itertools
import pickle

import numpy as np

import popsynth
from popsynth import AuxiliaryParameter, AuxiliarySampler, DerivedLumAuxSampler
from popsynth.distribution import DistributionParameter, LuminosityDistribution
from popsynth.selection_probability import SelectionProbability
from popsynth.selection_probability.selection_probability import SelectionParameter
from popsynth.utils.registry import (
    auxiliary_parameter_registry,
    distribution_registry,
    selection_registry,
)
from mc.core import check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all sequences of set, read and copy operations up to a depth in lockstep with a model"
BOUNDS = {
    "quick": "all sequences on 2 objects of each of 41 classes: of one operation and of 2 operations on all parameters (<= 16 values for the first, 2 within and those beyond the bounds for the second), of 3 operations with these few values on single parameters (on neighbouring pairs for the 7 classes of our own)",
    "thorough": "the same with all values for all of 2 operations, 3 operations on all pairs of parameters with few values and on single parameters with all values, 4 operations on neighbouring pairs with few values",
}
ASSUMPTIONS = [
    "the declarations of the provided classes are those of the table in this module, copied from their documentation and source",
    "values are numbers; None and strings are not set",
]
CHUNK = 2

INF = float("inf")
UNSET = None


def d(default=None, vmin=None, vmax=None, fixed=False):
    return dict(default=default, vmin=vmin, vmax=vmax, fixed=fixed)


POS = d(vmin=0)
ANY = d()
R = {"r_max": d(10, 0)}

# every registered class and the declarations of its parameters
DIST = {
    "BPLDistribution": dict(Lmin=POS, alpha=ANY, Lbreak=POS, beta=ANY, Lmax=POS),
    "SFRDistribution": dict(R, r0=POS, a=POS, rise=ANY, decay=ANY, peak=POS),
    "ZPowerCosmoDistribution": dict(R, Lambda=d(1, 0), delta=ANY),
    "DeltaDistribution": dict(Lp=d(0, 0)),
    "FlatlandDistribution": dict(R, Lambda=d(1, 0)),
    "LogNormalDistribution": dict(mu=ANY, tau=POS),
    "Log10NormalDistribution": dict(mu=ANY, tau=POS),
    "ParetoDistribution": dict(Lmin=d(1, 0), alpha=d(1)),
    "SchechterDistribution": dict(Lmin=d(1, 0), alpha=d(1)),
    "ConstantSphericalDistribution": dict(R, Lambda=d(1, 0)),
    "ZPowerSphericalDistribution": dict(R, Lambda=d(1, 0), delta=d(1)),
    "SpiralGalaxyDistribution": dict(R, rho=POS, a=ANY, b=ANY, R1=ANY, R0=ANY),
    "LogUniLuminiosityDistribution": dict(Lmin=POS, Lmax=POS),
    "UniformCosmoDistribution": dict(R, r0=POS, zmin=POS, zmax=POS),
}

SIGMA = {"sigma": d(1, 0)}
NORMAL = dict(SIGMA, mu=d(0), tau=d(1, 0))

AUX = {
    "NormalAuxSampler": NORMAL,
    "LogNormalAuxSampler": NORMAL,
    "Log10NormalAuxSampler": NORMAL,
    "DeltaAuxSampler": dict(SIGMA, xp=d(0)),
    "ViewingAngleSampler": dict(max_angle=d(90, 0, 180)),
    "TruncatedNormalAuxSampler": dict(NORMAL, lower=ANY, upper=ANY),
    "TruncatedLogNormalAuxSampler": dict(NORMAL, lower=POS, upper=POS),
    "TruncatedLog10NormalAuxSampler": dict(NORMAL, lower=POS, upper=POS),
    "ParetoAuxSampler": dict(SIGMA, xmin=d(1, 0), alpha=d(1, 0)),
    "PowerLawAuxSampler": dict(SIGMA, xmin=d(1, 0), xmax=d(2, 0), alpha=d(1)),
    "BrokenPowerLawAuxSampler": dict(SIGMA, xmin=POS, alpha=ANY, xbreak=POS, beta=ANY, xmax=POS),
}

SEL = {
    "BernoulliSelection": dict(probability=d(0.5, 0, 1)),
    "BoxSelection": dict(vmin=ANY, vmax=ANY),
    "LowerBound": dict(boundary=ANY),
    "UpperBound": dict(boundary=ANY),
    "HardFluxSelection": dict(boundary=ANY),
    "SoftSelection": dict(boundary=ANY, strength=POS),
    "SoftFluxSelection": dict(boundary=ANY, strength=POS),
    "GalacticPlaneSelection": dict(b_limit=d(None, 0, 90)),
    "DistanceSelection": dict(min_distance=POS, max_distance=POS),
}


class McParams(LuminosityDistribution):
    """All that a declaration can say"""

    _distribution_name = "McParams"

    lower = DistributionParameter(vmin=-1)
    upper = DistributionParameter(vmax=0)
    both = DistributionParameter(vmin=-2.5, vmax=2.5, default=0)
    point = DistributionParameter(vmin=0, vmax=0)
    fixed = DistributionParameter(default=3, free=False)

    def __init__(self):
        super().__init__(name="McParams", seed=1)

    def phi(self, L):
        return np.ones_like(L)

    def draw_luminosity(self, size):
        return np.ones(size)


class McChild(McParams):
    """Inherits, narrows, widens and adds"""

    _distribution_name = "McChild"

    both = DistributionParameter(vmin=0, vmax=1)
    lower = DistributionParameter(default=-7)
    more = DistributionParameter(default=0.0, vmin=0.0)


class McGrandchild(McChild):
    """Declares nothing of its own"""

    _distribution_name = "McGrandchild"


class McSampler(AuxiliarySampler):
    _auxiliary_sampler_name = "McSampler"

    mu = AuxiliaryParameter(default=0, vmin=-1, vmax=1)
    nu = AuxiliaryParameter(vmax=-1)
    fixed = AuxiliaryParameter(default=-2, vmin=5, free=False)

    def true_sampler(self, size):
        self._true_values = np.zeros(size)


class McSecond(McSampler):
    _auxiliary_sampler_name = "McSecond"


class McThird(McSecond):
    _auxiliary_sampler_name = "McThird"


class McFourth(McThird):
    _auxiliary_sampler_name = "McFourth"


class McFifth(McFourth):
    """Parameters from far up"""

    _auxiliary_sampler_name = "McFifth"


class McDerivedSampler(DerivedLumAuxSampler):
    _auxiliary_sampler_name = "McDerivedSampler"

    mu = AuxiliaryParameter(default=4, vmin=0)
    slope = AuxiliaryParameter()

    def true_sampler(self, size):
        self._true_values = np.zeros(size)

    def compute_luminosity(self):
        return self._true_values


class McSelection(SelectionProbability):
    _selection_name = "McSelection"

    mu = SelectionParameter(default=0, vmin=-1, vmax=1)
    nu = SelectionParameter(vmax=-1)
    fixed = SelectionParameter(default=1, free=False)

    def draw(self, size):
        self._selection = np.ones(size, bool)


OWN_BASE = dict(lower=d(None, -1), upper=d(None, None, 0), both=d(0, -2.5, 2.5), point=d(None, 0, 0), fixed=d(3, fixed=True))
OWN_CHILD = dict(OWN_BASE, both=d(None, 0, 1), lower=d(-7), more=d(0.0, 0.0))

OWN = {
    "McParams": (McParams, OWN_BASE),
    "McChild": (McChild, OWN_CHILD),
    "McGrandchild": (McGrandchild, OWN_CHILD),
    "McSampler": (McSampler, dict(mu=d(0, -1, 1), nu=d(None, None, -1), fixed=d(-2, 5, fixed=True))),
    "McFifth": (McFifth, dict(mu=d(0, -1, 1), nu=d(None, None, -1), fixed=d(-2, 5, fixed=True))),
    "McDerivedSampler": (McDerivedSampler, dict(mu=d(4, 0), slope=ANY)),
    "McSelection": (McSelection, dict(mu=d(0, -1, 1), nu=d(None, None, -1), fixed=d(1, fixed=True))),
}

def lookup(kind, name):
    if kind == "own":
        return OWN[name]
    reg, table = {"dist": (distribution_registry, DIST), "aux": (auxiliary_parameter_registry, AUX), "sel": (selection_registry, SEL)}[kind]
    return w.lookup(name, reg), table[name]


def build(cls, tag=""):
    if AuxiliarySampler in cls.__mro__ and cls.__name__ != "ViewingAngleSampler":
        return cls("quantity" + tag)
    return cls()


def values(decl, deep):
    """The values that are tried for a parameter"""
    lo, hi = decl["vmin"], decl["vmax"]
    if deep:
        inside = [x for x in (0.5, 2, -1, 0) if (lo is None or x >= lo) and (hi is None or x <= hi)][:2]
        outside = ([lo - 1] if lo is not None else []) + ([hi + 1] if hi is not None else [])
        return inside + outside
    out = [-1e30, -1.5, 0, 0.0, 0.25, 1, 7, 1e30, np.float64(0.75), np.int64(1)]
    for b in (lo, hi):
        if b is not None:
            out += [b, np.nextafter(b, -INF), np.nextafter(b, INF)]
    out.append(float("nan"))
    return out


def accepts(decl, v):
    if decl["fixed"]:
        # whether it may be set to the value it has is not specified
        return None if v == decl["default"] else False
    lo, hi = decl["vmin"], decl["vmax"]
    if v != v:
        return None if lo is None and hi is None else False
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def operations(table, names, deep):
    ops = []
    for i in (0, 1):
        for k in names:
            ops += [("set", i, k, v) for v in values(table[k], deep)]
            ops.append(("read", i, k))
    ops += [("deepcopy",), ("pickle",), ("new",), ("show", 0)]
    return ops


def classes():
    for kind, table in (("own", OWN), ("dist", DIST), ("aux", AUX), ("sel", SEL)):
        for name in table:
            yield kind, name


def cases(tier):
    full = tier == "thorough"
    for kind, name in classes():
        table = OWN[name][1] if kind == "own" else {"dist": DIST, "aux": AUX, "sel": SEL}[kind][name]
        names = sorted(table)
        c = dict(kind=kind, cls=name)
        yield dict(c, names=names, depth=1, values="all", first=None)
        for k in range(len(operations(table, names, False))):
            yield dict(c, names=names, depth=2, values="all" if full else "first", first=k)
        near = [names[i : i + 2] for i in range(max(1, len(names) - 1))]
        pairs = [list(p) for p in itertools.combinations(names, 2)] or [names]
        groups = near if kind == "own" else [[n] for n in names]
        for p in pairs if full else groups:
            for k in range(len(operations(table, p, True))):
                yield dict(c, names=p, depth=3, values="few", first=k)
        if full:
            for n in names:
                for k in range(len(operations(table, [n], False))):
                    yield dict(c, names=[n], depth=3, values="all", first=k)
            for p in near:
                for k in range(len(operations(table, p, True))):
                    yield dict(c, names=p, depth=4, values="few", first=k)


def run(case, cov):
    cls, table = lookup(case["kind"], case["cls"])
    few = case["values"] != "all"
    first = operations(table, case["names"], case["values"] == "few")
    ops = operations(table, case["names"], few)
    if case["first"] is None:
        sequence(cls, table, (), cov)
        for op in first:
            sequence(cls, table, (op,), cov)
        return
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        sequence(cls, table, (first[case["first"]],) + rest, cov)


def reported(o):
    if isinstance(o, SelectionProbability):
        return o.parameters
    return o.truth


def sequence(cls, table, seq, cov):
    objects = [build(cls), build(cls)]
    defaults = {k: v["default"] for k, v in table.items()}
    model = [dict(defaults), dict(defaults)]
    others = []  # objects nothing is done to
    for op in seq:
        if op[0] == "set":
            _, i, k, v = op
            ok = accepts(table[k], v)
            if ok is None:
                continue
            try:
                setattr(objects[i], k, v)
                raised = None
            except Exception as e:
                raised = e
            if ok:
                check(raised is None, "a value within the bounds was rejected", parameter=k, value=v, bounds=table[k], raised=repr(raised), sequence=seq)
                model[i][k] = v
            else:
                check(raised is not None, "a value was accepted that is out of bounds or of a fixed parameter", parameter=k, value=v, bounds=table[k], sequence=seq)
        elif op[0] == "read":
            _, i, k = op
            read(objects[i], k, model[i][k], seq)
        elif op[0] == "show":
            with w.quiet_output():
                repr(objects[0])
                if hasattr(objects[0], "display"):
                    objects[0].display()
        else:
            others.append((objects[1], dict(model[1])))
            if op[0] == "new":
                objects[1], model[1] = build(cls, "2"), dict(defaults)
            else:
                objects[1] = copy.deepcopy(objects[0]) if op[0] == "deepcopy" else pickle.loads(pickle.dumps(objects[0]))
                model[1] = dict(model[0])
        cov.step()
    fresh = (build(cls), dict(defaults))
    for o, m in list(zip(objects, model)) + others + [fresh]:
        expected = {k: v for k, v in m.items() if v is not None}
        for again in (False, True):
            t = reported(o)
            check(set(t) == set(expected), "the reported parameters are not those that have values", got=dict(t), expected=expected, sequence=seq)
            for k in t:
                check(same(t[k], expected[k]), "a reported parameter has another value", parameter=k, got=t[k], expected=expected[k], sequence=seq)
            if not again:
                for k in table:
                    read(o, k, m[k], seq)
    cov.state((cls.__name__, sorted((k, repr(v)) for k, v in model[0].items()), sorted((k, repr(v)) for k, v in model[1].items())))
    cov.outcome((cls.__name__, sorted((k, repr(v)) for k, v in model[0].items())))
    cov.note("sequences")


def same(x, y):
    return type(x) is type(y) and (x == y or (x != x and y != y))


def read(o, k, expected, seq):
    try:
        v = getattr(o, k)
    except Exception as e:
        check(expected is UNSET, "a parameter that has a value cannot be read", parameter=k, expected=expected, raised=repr(e), sequence=seq)
        return
    check(expected is not UNSET, "a parameter that has no value can be read", parameter=k, got=v, sequence=seq)
    check(same(v, expected), "a parameter reads as another value", parameter=k, got=v, expected=expected, sequence=seq)
