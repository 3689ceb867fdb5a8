"""
P06: a configuration and a seed determine the survey, whatever happened before.

All sequences of operations up to a depth on several synths: draws with various
options, changes that are taken back, inspection, storing, other synths, the
global random number generator, logs and progress. After each sequence surveys
are drawn. Oracle: the surveys of a fresh synth of the same configuration, also
of one in another process with another hash seed.
"""
import hashlib
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc.core import HarnessError, Violation, check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all operation sequences up to a depth"
BOUNDS = {
    "quick": "all sequences of <= 2 of 27 operations (3 of the first 9) on 8 configurations, surveys with 3 sets of options after each; a failure at every step of a survey, before and after it is done, on 8 configurations; 3 processes with different hash seeds x 8 configurations; 40 seeds x 8 configurations, 240 up to 2^32 - 1 x 2, 1500 x 1; all routes of <= 3 of 18 configuration steps, with surveys drawn after every subset of them",
    "thorough": "all sequences of <= 3 of 27 operations on 8 configurations, 600 seeds, routes of <= 4 steps",
}
ASSUMPTIONS = ["the global random number generator is numpy's legacy generator"]
CHUNK = 8

N = lambda name, **k: dict(name=name, type="NormalAuxSampler", params={"mu": 2.0, "tau": 1.0, "sigma": 0.5}, **k)

WORLDS = {
    "simple": dict(),
    "all slots": dict(
        aux=[
            N("c"),
            dict(name="b", type="TruncatedNormalAuxSampler", params={"mu": 1.0, "tau": 1.0, "lower": 0.0, "upper": 3.0, "sigma": 0.2}, secondary=["c"]),
            dict(name="a", type="LogNormalAuxSampler", params={"mu": 0.5, "tau": 0.4, "sigma": 0.2}, secondary=["b"], sel=["SoftSelection", {"boundary": 1.5, "strength": 4.0}, {"use_obs_value": True}]),
            N("d", sel=["BernoulliSelection", {"probability": 0.7}]),
        ],
        top=["a", "d"],
        flux=["SoftFluxSelection", {"boundary": 1e-2, "strength": 3.0}],
        dist=["BernoulliSelection", {"probability": 0.5}],
        space=["GalacticPlaneSelection", {"b_limit": 5.0}],
        model_spaces=[["fg", 1.0, 10.0, True]],
    ),
    "derived": dict(
        lum=None,
        aux=[N("f"), N("g"), dict(name="e", type="McCompute", secondary=["f", "g"]), N("a")],
        top=["e", "a"],
        flux=["HardFluxSelection", {"boundary": 1e-3}],
    ),
    "cosmo": dict(
        spatial=w.SPATIAL["sfr"],
        lum=w.LUM["schechter"],
        aux=[dict(name="p", type="ParetoAuxSampler", params={"xmin": 1.0, "alpha": 2.0}), dict(name="q", type="PowerLawAuxSampler", params={"xmin": 1.0, "xmax": 5.0, "alpha": -1.5})],
        top=["p", "q"],
        flux=["HardFluxSelection", {"boundary": 1e-60}],
        dist=["UpperBound", {"boundary": 1.5}, {"use_distance": True}],
    ),
    "spiral": dict(
        spatial=w.SPATIAL["spiral"],
        lum=w.LUM["lognorm"],
        aux=[dict(name="va", type="ViewingAngleSampler", params={"max_angle": 60.0})],
        top=["va"],
        space=["DistanceSelection", {"min_distance": 1.0, "max_distance": 12.0}],
    ),
    "flat": dict(
        spatial=w.SPATIAL["flat"],
        lum=w.LUM["bpl"],
        aux=[dict(name="k", type="Log10NormalAuxSampler", params={"mu": 0.5, "tau": 0.4, "sigma": 0.2}), dict(name="dl", type="DeltaAuxSampler", params={"xp": 3.0, "sigma": 0.5})],
        top=["k", "dl"],
        flux=["BoxSelection", {"vmin": 0.1, "vmax": 30.0}, {"use_flux": True}],
    ),
    "uniform": dict(spatial=w.SPATIAL["uniform"], lum=w.LUM["loguni"], aux=[N("s", secondary=[]), N("a", secondary=["s"]), N("d", secondary=["s"])], top=["a", "d"]),
    "zpcosmo": dict(
        spatial=w.SPATIAL["zpcosmo-steady"],
        lum=w.LUM["log10norm"],
        aux=[dict(name="t", type="TruncatedLog10NormalAuxSampler", params={"mu": 0.5, "tau": 0.4, "lower": 1.0, "upper": 20.0, "sigma": 0.2})],
        top=["t"],
        flux=["LowerBound", {"boundary": 1e-59}, {"use_flux": True}],
    ),
}

DRAWS = [dict(n_samples=4, flux_sigma=0.2), dict(), dict(normalize=True, flux_sigma=0.1, log10_flux_draw=False)]


def spec_of(name, seed=77):
    return dict(WORLDS[name], seed=seed)


def draw_all(synth, names):
    return [w.snapshot(synth.draw_survey(**o), names) for o in DRAWS]


class State:
    def __init__(self, name):
        self.name = name
        self.W = w.World(spec_of(name))
        self.names = list(self.W.samplers)
        self.pop = None

    @property
    def synth(self):
        return self.W.synth


def op_draw(s):
    s.pop = s.synth.draw_survey(n_samples=3, flux_sigma=0.3)


def op_draw_n(s):
    s.pop = s.synth.draw_survey()


def op_draw_norm(s):
    s.pop = s.synth.draw_survey(normalize=True)


def op_draw_zero(s):
    s.pop = s.synth.draw_survey(n_samples=0)


def op_param(s):
    """Change parameters, draw, and change them back"""
    objs = [s.W.spatial] + ([s.W.lum] if s.W.lum is not None else []) + list(s.W.samplers.values()) + list(s.W.selections.values())
    old = []
    for o in objs:
        p = dict(o.parameters if hasattr(o, "parameters") else o.truth)
        for k, v in p.items():
            old.append((o, k, v))
            try:
                setattr(o, k, v * 1.25)
            except RuntimeError:
                pass
    s.synth.draw_survey(n_samples=3)
    for o, k, v in old:
        setattr(o, k, v)


def op_other(s):
    o = w.World(spec_of(s.name, seed=5))
    o.synth.draw_survey(n_samples=5)


def op_other_same(s):
    w.World(spec_of(s.name)).synth.draw_survey(n_samples=2)


def op_random(s):
    np.random.seed(3)
    np.random.normal(size=7)


def op_reselect(s):
    """Attach other selections, draw, and attach the old ones again"""
    P = w.popsynth
    if "flux" in s.W.selections:
        o = P.HardFluxSelection()
        o.boundary = 1.0
        s.synth.set_flux_selection(o)
        s.synth.draw_survey(n_samples=3)
        s.synth.set_flux_selection(s.W.selections["flux"])
    for k, v in s.W.selections.items():
        if k in s.W.samplers:
            s.W.samplers[k].set_selection_probability(P.UnitySelection())
            s.synth.draw_survey(n_samples=2)
            s.W.samplers[k].set_selection_probability(v)


def op_graph(s):
    s.synth.graph


def op_dict(s):
    s.synth.to_dict()


def op_yaml(s):
    s.synth.write_to("s.yml")


def op_repr(s):
    repr(s.synth)
    repr(s.pop)


def op_inspect_pop(s):
    if s.pop is None:
        s.pop = s.synth.draw_survey(n_samples=2)
    s.pop.to_stan_data()
    s.pop.to_sub_population()
    s.pop.writeto("p.h5")
    w.popsynth.Population.from_file("p.h5")


def op_edit_pop(s):
    """Do something to a survey"""
    p = s.synth.draw_survey(n_samples=3)
    for k in ("luminosities", "distances", "fluxes", "theta", "phi", "probability"):
        v = getattr(p, k)
        v += 1.0
    for k in s.names:
        v = getattr(p, k)
        v *= 0.5
    for v in p.to_stan_data().values():
        if isinstance(v, np.ndarray):
            v += 1
    p.truth.clear()
    p.pop_synth.clear()
    p.spatial_parameters.clear()
    p.graph.clear()


def op_samplers(s):
    """Draw from the parts on their own"""
    np.random.seed(8)
    s.W.spatial.draw_distance(3)
    s.W.spatial.draw_sky_positions(3)
    if s.W.lum is not None:
        s.W.lum.draw_luminosity(2)
    for v in s.W.samplers.values():
        if not v.has_secondary:
            v.true_sampler(2)
            if v.observed:
                v.observation_sampler(2)


def op_parts(s):
    """Draw the secondary samplers, then all samplers, on their own"""
    order = [v for v in s.W.samplers.values() if not v.has_secondary] + [v for v in s.W.samplers.values() if v.has_secondary]
    for v in order:
        try:
            v.set_luminosity(np.array([2.0, 5.0]))
            v.set_spatial_values(w.popsynth.distribution.SpatialContainer(np.ones(2), np.ones(2), np.ones(2)))
            v.draw(2)
        except (AttributeError, TypeError):
            # a sampler that needs more than it was given
            pass


def op_shared(s):
    """Another synth draws with the samplers of this one"""
    o = w.World(spec_of(s.name, seed=5))
    lum = w.make(*w.LUM["pareto"]) if s.W.lum is None else s.W.lum
    t = w.PopulationSynth(s.W.spatial, lum, seed=41)
    for v in s.W.samplers.values():
        if not v.is_secondary:
            t.add_observed_quantity(v)
    t.draw_survey(n_samples=4)


def op_leaves(s):
    """Another synth draws with the secondary samplers of this one"""
    t = w.PopulationSynth(w.make(*w.SPATIAL["const"]), w.make(*w.LUM["pareto"]), seed=42)
    for i, v in enumerate(s.W.samplers.values()):
        if v.is_secondary and not v.has_secondary:
            p = w.popsynth.NormalAuxSampler("parent%d" % i)
            p.set_secondary_sampler(v)
            t.add_observed_quantity(p)
    t.draw_survey(n_samples=4)


def op_logs(s):
    P = w.popsynth
    P.silence_logs()
    P.activate_logs()


def op_quiet(s):
    w.popsynth.quiet_mode()


def op_loud(s):
    P = w.popsynth
    P.loud_mode()
    P.silence_progress_bars()


def op_progress(s):
    with w.progress(True):
        s.synth.draw_survey(n_samples=3)


def op_fail(s):
    """A draw which fails"""
    s.W.spatial.transform = _fail
    try:
        s.synth.draw_survey(n_samples=2)
        raise HarnessError("the draw did not fail")
    except ZeroDivisionError:
        pass
    finally:
        del s.W.spatial.transform


def _fail(*a):
    raise ZeroDivisionError()


def op_copy(s):
    import copy

    c = copy.deepcopy(s.synth)
    c.draw_survey(n_samples=3)


def op_restore(s):
    """A synth restored from this one is drawn"""
    o = w.PopulationSynth.from_dict(s.synth.to_dict())
    o.draw_survey(n_samples=3)


def op_rmax(s):
    r = s.W.spatial.r_max
    s.W.spatial.r_max = r * 0.5
    s.W.spatial.r_max = r


OPS = [
    op_draw,
    op_draw_n,
    op_param,
    op_reselect,
    op_random,
    op_fail,
    op_edit_pop,
    op_restore,
    op_draw_norm,
    op_draw_zero,
    op_other,
    op_other_same,
    op_graph,
    op_dict,
    op_yaml,
    op_repr,
    op_inspect_pop,
    op_samplers,
    op_logs,
    op_quiet,
    op_loud,
    op_progress,
    op_copy,
    op_rmax,
    op_parts,
    op_shared,
    op_leaves,
]

_REFERENCE = {}


def setup():
    for name in WORLDS:
        W = w.World(spec_of(name))
        _REFERENCE[name] = draw_all(W.synth, list(W.samplers))
        w.popsynth.silence_progress_bars()


def cases(tier):
    names = list(WORLDS)
    for hs in (0, 1, 4242):
        yield dict(process=hs)
    for name in names:
        yield dict(seeds=name, n=40 if tier == "quick" else 400)
    yield dict(seeds="simple", n=0, many=1500 if tier == "quick" else 12000)
    for name in names:
        for o in range(len(DRAWS)):
            for pre in (False, True):
                yield dict(fail=name, options=o, pre=pre)
    for depth in range(0, 3 if tier == "quick" else 4):
        for seq in itertools.product(range(len(OPS)), repeat=depth):
            for name in names:
                yield dict(world=name, ops=[OPS[i].__name__[3:] for i in seq])
    steps = sorted(STEPS)
    for depth in range(1, 4 if tier == "quick" else 5):
        for head in itertools.product(steps, repeat=max(0, depth - 2)):
            yield dict(route=list(head), more=min(depth, 2))
    if tier == "quick":
        for seq in itertools.product(range(9), repeat=3):
            for name in names[:3]:
                yield dict(world=name, ops=[OPS[i].__name__[3:] for i in seq])


def run(case, cov):
    if "process" in case:
        return run_process(case, cov)
    if "seeds" in case:
        return run_seeds(case, cov)
    if "fail" in case:
        return run_fail(case, cov)
    if "route" in case:
        return run_route(case, cov)
    name = case["world"]
    s = State(name)
    with w.quiet_output():
        for o in case["ops"]:
            globals()["op_" + o](s)
            cov.step()
        got = draw_all(s.synth, s.names)
    for o, a, b in zip(DRAWS, _REFERENCE[name], got):
        w.same_survey(a, b, "after %s the survey %s is not that of a fresh synth" % (", ".join(case["ops"]) or "nothing", o))
    cov.step(len(DRAWS))
    cov.state((name, tuple(case["ops"])))
    cov.outcome((name, w.digest(repr(got))))
    w.popsynth.silence_progress_bars()


class Point(Exception):
    pass


def points(s):
    """All steps of a survey at which it may fail: objects and their methods"""
    out = [(s.W.spatial, m) for m in ("draw_distance", "draw_sky_positions", "transform")]
    if s.W.lum is not None:
        out += [(s.W.lum, m) for m in ("draw_luminosity", "compute_probability")]
    for v in s.W.samplers.values():
        out += [(v, m) for m in ("true_sampler", "observation_sampler", "compute_luminosity") if hasattr(v, m)]
    for v in s.W.selections.values():
        out += [(v, "draw")]
    return out


def run_fail(case, cov):
    """A survey that fails at any step, before or after it is done, and the surveys after it"""
    name = case["fail"]
    n = len(points(State(name)))
    for i in range(n):
        for after in (False, True):
            s = State(name)
            if case["pre"]:
                s.synth.draw_survey(n_samples=3)
            o, m = points(s)[i]
            real = getattr(o, m)

            def failing(*a, **kw):
                if after:
                    real(*a, **kw)
                raise Point(m)

            object.__setattr__(o, m, failing)
            try:
                s.synth.draw_survey(**DRAWS[case["options"]])
                failed = False
            except Point:
                failed = True
            finally:
                delattr(o, m)
            where = "%s.%s" % (type(o).__name__, m)
            cov.note("failed" if failed else "not reached")
            for j, (opt, a) in enumerate(zip(DRAWS, _REFERENCE[name])):
                b = w.snapshot(s.synth.draw_survey(**opt), s.names)
                w.same_survey(a, b, "after a survey that failed in %s the survey %s is not that of a fresh synth" % (where, opt))
                cov.step()
            cov.state((name, i, after, case["options"], case["pre"]))


def digests():
    out = {}
    for name in WORLDS:
        W = w.World(spec_of(name))
        out[name] = [w.digest(repr(sorted(x.items(), key=lambda kv: kv[0]))).hex() for x in draw_all(W.synth, list(W.samplers))]
    return out


def run_process(case, cov):
    """Another process with another hash seed draws the same"""
    env = dict(os.environ, PYTHONHASHSEED=str(case["process"]))
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "mc.p06"], env=env, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise HarnessError(r.stderr)
    got = json.loads(r.stdout.splitlines()[-1])
    here = digests()
    for name in WORLDS:
        check(got[name] == here[name], "another process draws another survey", world=name, hash_seed=case["process"])
        cov.step(len(DRAWS))
        cov.state(("process", case["process"], name))


def run_seeds(case, cov):
    """Every seed gives a survey of its own, and the same one each time"""
    name = case["seeds"]
    seen = {}
    # small seeds, and those around powers of two and ten and the largest
    top = 2**32 - 1
    spread = {x + d for x in [2**k for k in range(5, 33)] + [10**k for k in range(2, 10)] for d in (-1, 0, 1)}
    spread |= {k * top // 97 for k in range(98)} | {20261119, 123456789, 987654321}
    seeds = sorted(x for x in set(range(case["n"])) | (spread if name in ("simple", "all slots") else set()) if 0 <= x <= top)
    for i in range(case.get("many", 0)):
        seed = int(hashlib.sha256(b"%d" % i).hexdigest()[:8], 16)
        x = w.arr(w.World(spec_of(name, seed=seed)).synth.draw_survey(n_samples=2).distances).tobytes()
        check(x not in seen, "two seeds give the same survey", seeds=(seed, seen.get(x)))
        seen[x] = seed
        cov.step()
    if case.get("many"):
        return
    for seed in seeds:
        W = w.World(spec_of(name, seed=seed))
        pop = W.synth.draw_survey(n_samples=3)
        again = w.World(spec_of(name, seed=seed)).synth.draw_survey(n_samples=3)
        cov.step(2)
        cov.state((name, seed))
        names = list(W.samplers)
        a = w.snapshot(pop, names)
        w.same_survey(a, w.snapshot(again, names), "two synths of the same seed draw different surveys")
        for col in ("distances", "theta", "phi"):
            check((col, a[col]) not in seen, "two seeds give the same survey", column=col, seeds=(seed, seen.get((col, a[col]))))
            seen[(col, a[col])] = seed
        check(W.synth.to_dict()["seed"] == seed and pop.pop_synth["seed"] == seed, "the seed is not the one asked for")


# routes: the configuration grows step by step, with surveys drawn on the way


class Parts:
    """The parts of a synth, which are put together in any order"""

    def __init__(self):
        P = w.popsynth
        self.spatial = w.make(*w.SPATIAL["const"])
        self.lum = w.make(*w.LUM["pareto"])
        self.synth = P.PopulationSynth(self.spatial, luminosity_distribution=self.lum, seed=9)
        A = lambda name, **k: w.McAux(name, **k)
        self.s = A("s", uses_luminosity=True, observed=False)
        self.t = A("t", uses_distance=True)
        self.a, self.b = A("a"), A("b", uses_luminosity=True)
        self.d, self.e = w.McDerived("d", uses_distance=True), w.McDerived("e")
        self.a.set_secondary_sampler(self.s)
        self.b.set_secondary_sampler(self.t)
        self.d.set_secondary_sampler(self.s)
        self.coin = P.BernoulliSelection()
        self.coin.probability = 0.6
        self.bright = P.LowerBound(use_luminosity=True)
        self.bright.boundary = 1.6
        self.near = P.UpperBound(use_distance=True)
        self.near.boundary = 1.7
        self.plane = P.GalacticPlaneSelection()
        self.plane.b_limit = 10.0


def elsewhere(p):
    """Another synth draws with the same parts"""
    P = w.popsynth
    o = P.PopulationSynth(p.spatial, luminosity_distribution=p.lum, seed=10)
    for x in (p.a, p.b):
        o.add_observed_quantity(x)
    o.set_flux_selection(p.coin)
    o.draw_survey(n_samples=7)


STEPS = {
    "attach a": lambda p: p.synth.add_observed_quantity(p.a),
    "attach b": lambda p: p.synth.add_observed_quantity(p.b),
    "attach d": lambda p: p.synth.add_observed_quantity(p.d),
    "attach e": lambda p: p.synth.add_observed_quantity(p.e),
    "t below a": lambda p: p.a.set_secondary_sampler(p.t),
    "s needs luminosity": lambda p: p.s.set_selection_probability(p.bright),
    "d needs luminosity": lambda p: p.d.set_selection_probability(p.bright),
    "b needs distance": lambda p: p.b.set_selection_probability(p.near),
    "coin for a": lambda p: p.a.set_selection_probability(p.coin),
    "coin for fluxes": lambda p: p.synth.set_flux_selection(p.coin),
    "coin for distances": lambda p: p.synth.set_distance_selection(p.coin),
    "near for distances": lambda p: p.synth.set_distance_selection(p.near),
    "bright for fluxes": lambda p: p.synth.set_flux_selection(p.bright),
    "plane": lambda p: p.synth.add_spatial_selector(p.plane),
    "clean": lambda p: p.synth.clean(),
    "clean all": lambda p: p.synth.clean(reset=True),
    "elsewhere": elsewhere,
    "no selection for a": lambda p: p.a.set_selection_probability(w.popsynth.UnitySelection()),
}


def attempt(f, *a, **k):
    try:
        return True, f(*a, **k)
    except Violation:
        raise
    except Exception:
        return False, None


def outcome(p):
    out = []
    for k in (dict(n_samples=5, flux_sigma=0.2), dict(n_samples=3)):
        ok, pop = attempt(p.synth.draw_survey, **k)
        if not ok:
            out.append(None)
            continue
        names = [x for x in ("a", "b", "d", "e", "s", "t") if x in pop.truth]
        out.append(w.snapshot(pop, names))
    return out


def run_route(case, cov):
    """
    All routes with these first steps, with a survey drawn after any of the steps:
    the last surveys do not depend on which were drawn before, and fail if they do
    without those
    """
    with w.quiet_output():
        for more in itertools.product(sorted(STEPS), repeat=case["more"]):
            route = case["route"] + list(more)
            reference = None
            for drawn in itertools.product((False, True), repeat=len(route)):
                p = Parts()
                for step, d in zip(route, drawn):
                    attempt(STEPS[step], p)
                    if d:
                        attempt(p.synth.draw_survey, n_samples=5)
                got = outcome(p)
                cov.step(len(route))
                if reference is None:
                    reference = got
                    cov.outcome(w.digest(repr(got)))
                    cov.state(("route", tuple(route)))
                    continue
                for a, b in zip(reference, got):
                    before = [s for s, d in zip(route, drawn) if d]
                    check((a is None) == (b is None), "whether a survey fails depends on surveys drawn before", route=route, drawn_after=before, fails_without=a is None)
                    if a is not None:
                        w.same_survey(a, b, "after %s the survey depends on those drawn after %s" % (route, before))
    w.LOG.clear()


if __name__ == "__main__":
    print(json.dumps(digests()))
