"""
P08: registering and cleaning follows a simple state machine.

All sequences of operations up to a depth against a model of the configuration
(which sampler, selection and luminosity source is attached). Oracle: after every
operation the dictionary and the graph are those of a synth put together afresh
from the model's configuration, and at the end so is the survey (or the draw
raises where the model says so).
"""
import itertools

import numpy as np

from mc.core import check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: all operation sequences up to a depth, a model of the configuration replayed on the implementation"
BOUNDS = {
    "quick": "all sequences of <= 3 of 27 operations with and without a luminosity function, the dictionary, graph and survey compared with a fresh synth after each sequence",
    "thorough": "as quick with sequences of <= 4 operations",
}
ASSUMPTIONS = ["sampler names are unique among secondaries"]
CHUNK = 32

P = w.popsynth


def N(name, mu=2.0, observed=True):
    o = P.NormalAuxSampler(name=name, observed=observed)
    o.mu, o.tau, o.sigma = mu, 1.0, 0.5
    return o


def hard(cls, v, **k):
    o = cls(**k)
    o.boundary = v
    return o


class Parts:
    """The objects that are attached; the same ones each time"""

    def __init__(self):
        self.a = N("a", 2.0)
        self.b = N("b", 3.0, observed=False)
        self.a2 = N("a", 9.0)
        self.c = N("c", 4.0)
        self.s = N("s", 5.0)
        self.c.set_secondary_sampler(self.s)
        self.e1 = w.McCompute("e")
        self.e1.scale = 2.0
        self.e2 = w.McCompute("k")
        self.e2.scale = 3.0
        self.t = N("t", 6.0)
        self.e2.set_secondary_sampler(self.t)
        self.ae = N("e", 7.0)
        self.f1 = hard(P.HardFluxSelection, 0.05)
        self.f2 = hard(P.UpperBound, 0.2, use_flux=True)
        self.d1 = hard(P.UpperBound, 1.2, use_distance=True)
        self.d2 = P.BernoulliSelection()
        self.d2.probability = 0.4
        self.p1 = P.GalacticPlaneSelection()
        self.p1.b_limit = 30.0
        self.p2 = P.DistanceSelection()
        self.p2.min_distance, self.p2.max_distance = 0.8, 1.7
        self.sel1 = hard(P.LowerBound, 2.0, use_obs_value=True)
        self.sel2 = hard(P.UpperBound, 2.5, use_obs_value=True)


class Model:
    """The configuration"""

    def __init__(self, lum):
        self.lum = lum
        self.sel = {}  # selections of samplers
        self.sec = {}  # secondaries which were added on the way
        self.clean()

    def clean(self):
        self.aux = []
        self.derived = None
        self.flux = None
        self.dist = None
        self.space = None

    def key(self):
        return (
            self.lum,
            tuple(self.aux),
            self.derived,
            self.flux,
            self.dist,
            self.space,
            tuple(sorted(self.sel.items())),
        )

    def source(self):
        return self.lum or self.derived is not None


NAME = dict(a="a", b="b", a2="a", c="c", s="s", e1="e", e2="k", t="t", ae="e")


def do(op, synth, parts, model):
    """Apply an operation to both. Returns whether it must be refused"""
    kind, x = op
    if kind == "add":
        o = getattr(parts, x)
        call = lambda: synth.add_observed_quantity(o)
        refused = NAME[x] in [NAME[y] for y in model.aux] or x in ("s", "t")
        if x in ("e1", "e2"):
            if not refused:
                apply = lambda: setattr(model, "derived", x)
        else:
            if model.derived is not None and NAME[x] == NAME[model.derived]:
                refused = True
            apply = lambda: model.aux.append(x)
    elif kind == "add2":
        o = getattr(parts, x)
        call = lambda: synth.add_auxiliary_sampler(o)
        refused = NAME[x] in [NAME[y] for y in model.aux]
        apply = lambda: model.aux.append(x)
    elif kind == "add wrong":
        call = lambda: synth.add_observed_quantity(WRONG[x](parts))
        refused, apply = True, None
    elif kind in ("flux", "dist", "space"):
        setter = dict(flux=synth.set_flux_selection, dist=synth.set_distance_selection, space=synth.add_spatial_selector)[kind]
        if x in WRONG:
            call = lambda: setter(WRONG[x](parts))
            refused, apply = True, None
        else:
            call = lambda: setter(getattr(parts, x))
            refused = False
            apply = lambda: setattr(model, kind, x)
    elif kind == "select":
        s, x = x
        if x in WRONG:
            call = lambda: getattr(parts, s).set_selection_probability(WRONG[x](parts))
            refused, apply = True, None
        else:
            call = lambda: getattr(parts, s).set_selection_probability(getattr(parts, x))
            refused = False
            apply = lambda: model.sel.__setitem__(s, x)
    elif kind == "clean":
        call = lambda: synth.clean(reset=x)
        refused, apply = False, model.clean
    elif kind == "draw":
        call = lambda: synth.draw_survey(n_samples=x)
        refused, apply = not model.source(), lambda: None
    try:
        call()
        raised = None
    except (RuntimeError, AssertionError, TypeError, AttributeError) as e:
        raised = e
    if refused:
        check(raised is not None, "%s %s is not refused" % op, configuration=model.key())
    else:
        if raised is not None:
            raise raised
        apply()
    return refused


WRONG = {
    "nothing": lambda p: None,
    "class": lambda p: P.UnitySelection,
    "selection": lambda p: p.f1,
    "sampler": lambda p: p.a,
    "distribution": lambda p: P.ParetoDistribution(),
}

OPS = [
    ("add", "a"),
    ("add", "b"),
    ("add", "c"),
    ("add", "a2"),
    ("add", "s"),
    ("add", "e1"),
    ("add", "e2"),
    ("add", "ae"),
    ("add2", "b"),
    ("add wrong", "nothing"),
    ("add wrong", "selection"),
    ("flux", "f1"),
    ("flux", "f2"),
    ("flux", "sampler"),
    ("dist", "d1"),
    ("dist", "d2"),
    ("dist", "class"),
    ("space", "p1"),
    ("space", "p2"),
    ("space", "nothing"),
    ("select", ("a", "sel1")),
    ("select", ("a", "sel2")),
    ("select", ("a", "distribution")),
    ("clean", False),
    ("clean", True),
    ("draw", 3),
    ("draw", 0),
]


def cases(tier):
    for depth in range(0, 4 if tier == "quick" else 5):
        for seq in itertools.product(range(len(OPS)), repeat=depth):
            yield dict(ops=list(seq), lum=True)
            if depth < 4:
                yield dict(ops=list(seq), lum=False)


def base(lum):
    sp = P.ConstantSphericalDistribution()
    sp.Lambda, sp.r_max = 1.0, 2.0
    l = None
    if lum:
        l = P.ParetoDistribution()
        l.Lmin, l.alpha = 1.0, 1.5
    return P.PopulationSynth(sp, l, seed=31)


_CACHE = {}


def expected(model):
    """The synth of the configuration, put together afresh: dictionary, graph and survey"""
    key = model.key()
    if key in _CACHE:
        return _CACHE[key]
    parts = Parts()
    synth = base(model.lum)
    for s, x in model.sel.items():
        getattr(parts, s).set_selection_probability(getattr(parts, x))
    for x in model.aux:
        synth.add_observed_quantity(getattr(parts, x))
    if model.derived:
        synth.add_observed_quantity(getattr(parts, model.derived))
    if model.flux:
        synth.set_flux_selection(getattr(parts, model.flux))
    if model.dist:
        synth.set_distance_selection(getattr(parts, model.dist))
    if model.space:
        synth.add_spatial_selector(getattr(parts, model.space))
    d = w.plain(synth.to_dict())
    g = w.graph_key(synth.graph, True)
    survey = None
    names = None
    if model.source():
        names = [NAME[x] for x in model.aux] + ([NAME[model.derived]] if model.derived else [])
        names += ["s"] if "c" in model.aux else []
        names += ["t"] if model.derived == "e2" else []
        # the fresh synth holds what the model says
        pop = synth.draw_survey(n_samples=4, flux_sigma=0.1)
        for k in names:
            check(hasattr(pop, k), "a fresh synth lacks an attached sampler", sampler=k)
        for k in set(NAME.values()) - set(names):
            check(not hasattr(pop, k), "a fresh synth has a sampler that is not attached", sampler=k)
        survey = w.snapshot(pop, names)
    names_d = set(d["auxiliary samplers"])
    exp = {NAME[x] for x in model.aux} | ({NAME[model.derived]} if model.derived else set())
    exp |= {"s"} if "c" in model.aux else set()
    exp |= {"t"} if model.derived == "e2" else set()
    check(names_d == exp, "the dictionary has other samplers than those attached", got=names_d, expected=exp)
    for slot, k in (("flux", "flux selection"), ("dist", "distance selection"), ("space", "spatial selection")):
        x = getattr(model, slot)
        check((k in d) == (x is not None), "the dictionary is wrong about an attached selection", slot=slot)
        if x is not None:
            check(list(d[k]) == [getattr(parts, x)._selection_name], "the dictionary has another selection", slot=slot)
    _CACHE[key] = (d, g, survey, names)
    return _CACHE[key]


def run(case, cov):
    parts = Parts()
    synth = base(case["lum"])
    model = Model(case["lum"])
    for i in case["ops"]:
        refused = do(OPS[i], synth, parts, model)
        cov.step()
    d, g, survey, names = expected(model)
    what = "after " + "; ".join("%s %s" % OPS[i] for i in case["ops"])
    got = w.plain(synth.to_dict())
    check(got == d, "%s the dictionary is not that of the configuration" % what, got=got, expected=d)
    gg = w.graph_key(synth.graph, True)
    check(gg == g, "%s the graph is not that of the configuration" % what, got=gg, expected=g)
    cov.state(model.key())
    cov.outcome((model.key(), survey is None))
    if survey is None:
        try:
            synth.draw_survey(n_samples=2)
        except RuntimeError:
            return
        check(False, "%s a survey is drawn without a luminosity source" % what)
    pop = synth.draw_survey(n_samples=4, flux_sigma=0.1)
    cov.step()
    w.same_survey(survey, w.snapshot(pop, names), "%s the survey is not that of the configuration" % what)
    for k in set(NAME.values()) - set(names):
        check(not hasattr(pop, k), "%s the survey has a sampler that is not attached" % what, sampler=k)
