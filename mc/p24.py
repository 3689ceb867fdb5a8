"""
P24: ready-made populations equal the same synth put together by hand.

Every ready-made population, with each constructor argument (and each pair) varied
on its own, handed over by name and by position, left out or not; with every source
of luminosities where one can be given; restored from its dictionary. Oracle: the
table of what each argument is, and the synth that is put together by hand.
"""
import itertools

import numpy as np

from popsynth.populations import spatial_populations
from popsynth.utils.registry import distribution_registry

from mc.core import Violation, check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: exhaustive enumeration of constructor arguments against synths that are put together by hand"
BOUNDS = {
    "quick": "25 ready-made populations; 4 values for each of up to 13 arguments, one at a time and in all pairs; by name and by position; 8 luminosity sources; 5 ways to draw",
    "thorough": "the same with all triples of arguments",
}
ASSUMPTIONS = ["values of arguments are valid for the parameters they set"]
CHUNK = 24

P = w.popsynth

# the arguments, in their order, with the values they take: the first is the base
SPHERE = [("Lambda", (0.2, 0.9, 1, 0.05))]
ZSPHERE = SPHERE + [("delta", (-1.2, 0.0, 2, 0.6))]
ZCOSMO = [("Lambda", (1.7, 3.0, 5, 0.5)), ("delta", (-1.1, 0, 0.7, 1.9))]
SFR = [("r0", (0.4, 1, 0.05, 2.2)), ("a", (0.3, 1, 0, 1.8)), ("rise", (1.3, 2.6, 0, 4)), ("decay", (2.9, 1, 4.4, 3)), ("peak", (1.6, 2, 0.7, 3.1))]
SPIRAL = [("rho", (1e-3, 2e-3, 3e-3, 4e-3)), ("a", (1.64, 0, 1, 2.2)), ("b", (4.01, 1, 5.5, 3)), ("R1", (0.55, 0.2, 1, 0.8)), ("R0", (8.5, 7, 9.9, 6.1))]
RMAX = [("r_max", (1.4, 2, 0.8, 2.3))]
SEED = [("seed", (77, 1, 0, 4321))]
RATE = [("is_rate", (False, True))]

TWO = [("mu", (0.4, 0, -1, 1.3)), ("tau", (0.6, 1, 2, 0.05))]
LUM = {
    "Pareto": ("ParetoDistribution", [("Lmin", (1.5, 1, 0.2, 12)), ("alpha", (1.2, 1, 2, 0.7))]),
    "Schechter": ("SchechterDistribution", [("Lmin", (1.5, 1, 0.2, 12)), ("alpha", (1.2, 1, 2, 0.7))]),
    "BPL": ("BPLDistribution", [("Lmin", (1.5, 1, 0.2, 2)), ("alpha", (-0.4, -1, 0, 0.7)), ("Lbreak", (4.5, 3, 5, 9)), ("beta", (-2.2, -1, -3, -1.4)), ("Lmax", (31.0, 20, 11, 100))]),
    "LogNormal": ("LogNormalDistribution", TWO),
    "Log10Normal": ("Log10NormalDistribution", TWO),
}
SPATIAL = {
    "HomogeneousSpherical": ("ConstantSphericalDistribution", SPHERE, []),
    "ZPowerSpherical": ("ZPowerSphericalDistribution", ZSPHERE, []),
    "ZPowerCosmo": ("ZPowerCosmoDistribution", ZCOSMO, RATE),
    "SFR": ("SFRDistribution", SFR, RATE),
}

# name -> (spatial class, luminosity class, arguments, those which may be left out)
READY = {}
for _lu, (_lc, _la) in LUM.items():
    for _sp, (_sc, _sa, _rate) in SPATIAL.items():
        READY[_lu + _sp + "Population"] = (_sc, _lc, [a for a, _ in _sa], [a for a, _ in _la], _sa + _la + RMAX + SEED + _rate)
BARE = {
    "SphericalPopulation": ("ConstantSphericalDistribution", SPHERE, []),
    "ZPowerSphericalPopulation": ("ZPowerSphericalDistribution", ZSPHERE, []),
    "ZPowerCosmoPopulation": ("ZPowerCosmoDistribution", ZCOSMO, RATE),
    "SFRPopulation": ("SFRDistribution", SFR, RATE),
    "MWRadialPopulation": ("SpiralGalaxyDistribution", SPIRAL, []),
}
for _n, (_sc, _sa, _rate) in BARE.items():
    READY[_n] = (_sc, None, [a for a, _ in _sa], [], _sa + RMAX + SEED + [("luminosity_distribution", ("pareto", None, "bpl", "delta"))] + _rate)

SOURCES = list(w.LUM) + [None]


def default(name, arg):
    """The value of an argument that is left out"""
    if arg == "r_max":
        return 20 if name.startswith("MW") else 10 if name.startswith("Schechter") else 5
    if name.startswith("MW") and arg in dict(SPIRAL) and arg != "rho":
        return dict(SPIRAL)[arg][0]
    return dict(seed=1234, is_rate=True, luminosity_distribution=None).get(arg)


def optional(name, arg):
    return arg in ("r_max", "seed", "is_rate", "luminosity_distribution") or (name.startswith("MW") and arg != "rho")


def cases(tier):
    for name, (sc, lc, sa, la, args) in READY.items():
        for how in ("name", "position"):
            yield dict(kind="built", pop=name, how=how, vary={})
            for k in range(1, 3 if tier == "quick" else 4):
                for some in itertools.combinations(args, k):
                    if k >= 2 and how == "position":
                        continue
                    for values in itertools.product(*(v[1:] if k == 1 else v[1:3] for _, v in some)):
                        yield dict(kind="built", pop=name, how=how, vary=dict(zip((a for a, _ in some), values)))
        left = [a for a, _ in args if optional(name, a)]
        for k in range(1, len(left) + 1):
            for some in itertools.combinations(left, k):
                if k in (1, 2, len(left)) or tier != "quick":
                    yield dict(kind="left out", pop=name, left=some)
        if lc is None:
            for s in SOURCES:
                yield dict(kind="source", pop=name, source=s)
        yield dict(kind="two", pop=name)


def run(case, cov):
    globals()[case["kind"].replace(" ", "_")](case, cov)
    cov.state(repr(sorted(case.items(), key=str)))


def ready(name):
    o = getattr(P.populations, name, None) or getattr(spatial_populations, name, None)
    check(o is not None, "a ready-made population is missing", name=name)
    return o


def values_of(name, vary):
    v = {a: x[0] for a, x in READY[name][4]}
    v.update(vary)
    return v


def luminosity(source):
    return None if source is None else w.make(*w.LUM[source], registry=distribution_registry)


def construct(name, values, how="name", left=()):
    v = dict(values)
    if "luminosity_distribution" in v:
        v["luminosity_distribution"] = luminosity(v["luminosity_distribution"])
    if how == "position":
        return ready(name)(*[v[a] for a, _ in READY[name][4]])
    return ready(name)(**{k: x for k, x in v.items() if k not in left})


def by_hand(name, v):
    sc, lc, sa, la, args = READY[name]
    kw = dict(seed=v["seed"])
    if "is_rate" in v:
        kw["is_rate"] = v["is_rate"]
    # a parameter of both has the name of the one that takes it
    sp = w.make(sc, dict({a: v[a] for a in sa}, r_max=v["r_max"]), kw, registry=distribution_registry)
    if lc is not None:
        lum = w.make(lc, {a: v[a] for a in la}, dict(seed=v["seed"]), registry=distribution_registry)
    else:
        lum = luminosity(v["luminosity_distribution"])
    return P.PopulationSynth(sp, luminosity_distribution=lum, seed=v["seed"])


def expect(s, name, v):
    """What a synth must hold, from the table"""
    sc, lc, sa, la, args = READY[name]
    sp, lum = s.spatial_distribution, s.luminosity_distribution
    check(type(sp) is distribution_registry.get_class(sc), "a ready-made population has another spatial distribution", population=name, got=type(sp).__name__, expected=sc)
    for a in sa + ["r_max"]:
        for g in (getattr(sp, a), sp.params[a]):
            check(g == v[a], "a parameter of a ready-made population is not that which was given", population=name, parameter=a, got=g, expected=v[a])
    if "is_rate" in v:
        z = 0.75
        e = 1 + z if v["is_rate"] else 1.0
        check(np.isclose(sp.time_adjustment(z), e), "a ready-made population ignores whether it is a rate", population=name, got=sp.time_adjustment(z), expected=e)
    if lc is not None:
        check(type(lum) is distribution_registry.get_class(lc), "a ready-made population has another luminosity distribution", population=name, got=type(lum).__name__, expected=lc)
        for a in la:
            for g in (getattr(lum, a), lum.params[a]):
                check(g == v[a], "a parameter of a ready-made population is not that which was given", population=name, parameter=a, got=g, expected=v[a])
    else:
        src = v["luminosity_distribution"]
        if src is None:
            check(lum is None, "a ready-made population without luminosity distribution has one", population=name)
        else:
            c, p = w.LUM[src][:2]
            check(type(lum).__name__ == c and all(lum.params[k] == x for k, x in p.items()), "a ready-made population has another luminosity distribution than it was given", population=name)
    d = s.to_dict()
    check(d["seed"] == v["seed"], "a ready-made population has another seed than it was given", population=name, got=d["seed"], expected=v["seed"])


def same_synth(a, b, name):
    x, y = w.plain(a.to_dict()), w.plain(b.to_dict())
    check(x == y, "the dictionary of a ready-made population is not that of the synth put together by hand", population=name, got=x, expected=y)


def same_draws(a, b, v, cov, name, derived=False):
    for s in (a, b):
        if derived:
            s.add_observed_quantity(w.make("McCompute", {"scale": 2.0}, dict(name="der")))
    ways = [dict(n_samples=6), dict(n_samples=3, normalize=True)]
    # natural numbers of objects, where they are few
    sp = b.spatial_distribution
    from mc import space

    ref = space.Reference(READY[name][0], dict(sp.params), v.get("is_rate", True))
    if ref.total() < 150:
        ways.append({})
    if READY[name][0] != "SpiralGalaxyDistribution" and ref.total() > 0:
        ways.append(dict(normalize=True))
    for j, kw in enumerate(ways):
        if j == 1:
            for s in (a, b):
                f = w.make("LowerBound", {"boundary": 0.05}, {"use_flux": True})
                s.set_flux_selection(f)
            kw = dict(kw, flux_sigma=0.2)
        x, y = a.draw_survey(**kw), b.draw_survey(**kw)
        names = ("der",) if derived else ()
        w.same_survey(w.snapshot(x, names), w.snapshot(y, names), "a survey of the ready-made population %s is not that of the synth put together by hand" % name)
        check(x.to_stan_data()["r_max"] == v["r_max"], "a survey has another maximum distance than was given", got=x.to_stan_data()["r_max"], expected=v["r_max"])
        cov.step()


def built(case, cov):
    name = case["pop"]
    v = values_of(name, case["vary"])
    a, b = construct(name, v, case["how"]), by_hand(name, v)
    expect(a, name, v)
    expect(b, name, v)
    derived = READY[name][1] is None and v["luminosity_distribution"] is None
    if not derived:
        same_synth(a, b, name)
    # and what is restored
    if not derived and len(case["vary"]) <= 1:
        r = P.PopulationSynth.from_dict(a.to_dict())
        expect(r, name, v)
        w.same_survey(w.snapshot(r.draw_survey(n_samples=4)), w.snapshot(by_hand(name, v).draw_survey(n_samples=4)), "a survey of the restored ready-made population %s is not that of the synth put together by hand" % name, ignore=())
    if len(case["vary"]) <= 1:
        same_draws(a, b, v, cov, name, derived)
    cov.outcome((name, str(v)))
    cov.step()


def left_out(case, cov):
    name, left = case["pop"], case["left"]
    v = values_of(name, {a: default(name, a) for a in left})
    a = construct(name, v, left=left)
    expect(a, name, v)
    if v.get("luminosity_distribution", "") is not None:
        same_synth(a, by_hand(name, v), name)
    cov.step()


def source(case, cov):
    name = case["pop"]
    v = values_of(name, dict(luminosity_distribution=case["source"]))
    a, b = construct(name, v), by_hand(name, v)
    expect(a, name, v)
    same_draws(a, b, v, cov, name, case["source"] is None)


def two(case, cov):
    """Two populations of a kind do not share anything"""
    name = case["pop"]
    args = READY[name][4]
    v1 = values_of(name, {})
    v2 = {a: x[1] for a, x in args}
    if v2.get("luminosity_distribution", "") is None:
        v2["luminosity_distribution"] = "bpl"
    a = construct(name, v1)
    b = construct(name, v2)
    expect(a, name, v1)
    expect(b, name, v2)
    sa = a.draw_survey(n_samples=5)
    sb = b.draw_survey(n_samples=5)
    sa2 = a.draw_survey(n_samples=5)
    w.same_survey(w.snapshot(sa), w.snapshot(sa2), "a survey of a ready-made population is changed by another population")
    w.same_survey(w.snapshot(sb), w.snapshot(by_hand(name, v2).draw_survey(n_samples=5)), "a survey of a ready-made population is not that of the synth put together by hand")
    expect(a, name, v1)
    # parameters can be changed later on
    for x, _ in args:
        if x in READY[name][2] + ["r_max"]:
            setattr(a.spatial_distribution, x, v2[x])
    for x in READY[name][3]:
        setattr(a.luminosity_distribution, x, v2[x])
    expect(b, name, v2)
    cov.step()
