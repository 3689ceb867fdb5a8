"""
P05: every sampler is drawn once per survey, after all samplers it depends on.

All dependency graphs of up to N samplers (all labelled directed acyclic graphs),
times which of them are observed, times which of the roots derives the
luminosity, times the order of attachment. Each is drawn several times with
other sizes and parameters in between. Oracle: the events which the samplers
report, and their values recomputed from the rows of the survey.
"""
import itertools

import numpy as np

from mc.core import check
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all dependency graphs of up to 4 (5) samplers"
BOUNDS = {
    "quick": "all 572 labelled acyclic graphs of <= 4 samplers x observed patterns (all for <= 3 samplers, 4 for 4) x every choice of a root as derived luminosity or none x 2 attachment orders, 3 surveys each; one survey of 150 objects for graphs of <= 3 samplers; 40 graphs of 6 to 15 samplers; the graphs of <= 3 and of 6 to 15 samplers also with names such as 'a b', 'items', '1' and 'null'",
    "thorough": "as quick with all observed patterns and all 29853 graphs of <= 5 samplers",
}
ASSUMPTIONS = ["samplers are driven through the documented extension point (true_sampler, observation_sampler, compute_luminosity)"]
CHUNK = 8

NAMES = ("q", "b", "z", "a", "m", "t2", "k", "c9", "y", "d", "w", "g", "o", "f", "e2", "x7", "u")

# names that are no identifiers, that other things are called, or that YAML reads as something else
ODD = ("items", "a b", "1", "log-x", "\u03b1", "null", "0.5", "a.b", "true", "values", "2020-01-01", "class", "~", "1e3", "shape", "get", "keys")


def names_of(case):
    return ODD if case.get("odd") else NAMES


def large():
    """Some graphs of more samplers"""

    def relabelled(sec):
        n = len(sec)
        yield tuple(tuple(s) for s in sec)
        # the other way round
        yield tuple(tuple(n - 1 - j for j in sec[n - 1 - i]) for i in range(n))
        # mixed up
        to = [(5 * i + 2) % n if n % 5 else (3 * i + 1) % n for i in range(n)]
        if len(set(to)) == n:
            at = {t: i for i, t in enumerate(to)}
            yield tuple(tuple(to[j] for j in sec[at[t]]) for t in range(n))

    shapes = []
    for n in (6, 9):
        shapes.append([tuple(range(1, n))] + [()] * (n - 1))  # one with many below it
        shapes.append([(i + 1,) if i + 1 < n else () for i in range(n)])  # a chain
        shapes.append([()] * n)  # each on its own
        shapes.append([(n - 1,)] * (n - 1) + [()])  # all share one
    shapes.append([()] * 12)
    shapes.append([tuple(range(1, 15))] + [()] * 14)
    shapes.append([(i + 1,) if i + 1 < 15 else () for i in range(15)])
    shapes.append([(1, 2), (3, 4), (5, 6), (), (), (), ()])  # a tree
    shapes.append([(2, 3), (2, 3), (4, 5), (4, 5), (6,), (6,), ()])  # layers
    shapes.append([tuple(range(i + 1, 6)) for i in range(6)])  # all of those after it
    for sec in shapes:
        yield from relabelled(sec)


def dags(n):
    """All acyclic graphs on n labelled nodes, as tuples of the secondaries"""
    edges = [(i, j) for i in range(n) for j in range(n) if i != j]
    pairs = list(itertools.combinations(range(n), 2))
    for choice in itertools.product((0, 1, 2), repeat=len(pairs)):
        sec = [[] for _ in range(n)]
        for (i, j), c in zip(pairs, choice):
            if c == 1:
                sec[i].append(j)
            elif c == 2:
                sec[j].append(i)
        # acyclic?
        state = [0] * n

        def visit(i):
            if state[i] == 1:
                return False
            if state[i] == 2:
                return True
            state[i] = 1
            ok = all(visit(j) for j in sec[i])
            state[i] = 2
            return ok

        if all(visit(i) for i in range(n)):
            yield tuple(tuple(s) for s in sec)


def cases(tier):
    top = 4 if tier == "quick" else 5
    for n in range(1, top + 1):
        for sec in dags(n):
            yield dict(sec=sec, tier=tier)
    for sec in large():
        yield dict(sec=sec, tier=tier)
    for n in range(1, 4):
        for sec in dags(n):
            yield dict(sec=sec, tier=tier, odd=True)
    for sec in large():
        yield dict(sec=sec, tier=tier, odd=True)


def observed_patterns(n, tier):
    if n <= 3 or (tier == "thorough" and n == 4):
        return list(itertools.product((True, False), repeat=n))
    return [(True,) * n, (False,) * n, tuple(i % 2 == 0 for i in range(n)), tuple(i % 2 == 1 for i in range(n))]


class Recorder:
    """What the samplers were shown"""

    def __init__(self, sampler):
        self.shown = []
        inner = sampler.set_spatial_values

        def set_spatial_values(value):
            self.shown.append((w.arr(value.distance), w.arr(value.theta), w.arr(value.phi), w.arr(value.ra), w.arr(value.dec)))
            return inner(value)

        sampler.set_spatial_values = set_spatial_values


def run(case, cov):
    NAMES = names_of(case)
    sec = case["sec"]
    n = len(sec)
    roots = [i for i in range(n) if not any(i in s for s in sec)]
    down = {i: set() for i in range(n)}

    def below(i):
        out = set(sec[i])
        for j in sec[i]:
            out |= below(j)
        return out

    for derived in [None] + (roots if n <= 5 else roots[:1] + roots[-1:]):
        hidden = set() if derived is None else below(derived) | {derived}
        for obs in observed_patterns(n, case.get("tier", "quick")):
            if derived is not None and not obs[derived]:
                continue
            if derived is not None and n == 4 and case.get("tier") == "quick" and obs != (True,) * n and not obs[0]:
                continue
            for order in (1, -1):
                aux = []
                for i in range(n):
                    if i == derived:
                        a = dict(name=NAMES[i], type="McDerived", kwargs={"uses_distance": i % 2 == 0})
                    else:
                        a = dict(
                            name=NAMES[i],
                            type="McAux",
                            observed=obs[i],
                            kwargs={"uses_distance": i % 2 == 0, "uses_luminosity": i not in hidden},
                        )
                    a["secondary"] = [NAMES[j] for j in sec[i]][::order]
                    aux.append(a)
                top = [NAMES[i] for i in roots][::order]
                W = w.World(dict(aux=aux, top=top, lum=None if derived is not None else w.LUM["pareto"], seed=3))
                rec = {k: Recorder(s) for k, s in W.samplers.items()}
                for size, gain in ((2, None), (3, 2.0), (2, None), (0, None)):
                    if gain is not None:
                        W.samplers[NAMES[n - 1]].gain = gain
                    survey(case, W, sec, derived, obs, size, rec, cov)
                    if size == 2 and n == 4 and order == -1:
                        break
                if order == 1 and n <= 3:
                    survey(case, W, sec, derived, obs, 150, rec, cov)
                cov.state((sec, derived, obs, order))
                cov.outcome((sec, derived))


def survey(case, W, sec, derived, obs, size, rec, cov):
    NAMES = names_of(case)
    n = len(sec)
    w.LOG.clear()
    for r in rec.values():
        r.shown.clear()
    pop = W.synth.draw_survey(n_samples=size)
    cov.step()
    log = list(w.LOG)
    pos = {}
    for i in range(n):
        k = NAMES[i]
        t = [p for p, e in enumerate(log) if e[:2] == ("true", k)]
        o = [p for p, e in enumerate(log) if e[:2] == ("obs", k)]
        check(len(t) == 1, "a sampler is not drawn exactly once", sampler=k, times=len(t), log=log)
        is_obs = obs[i] and i != derived
        check(len(o) == (1 if is_obs else 0), "observed values are not drawn exactly once if observed", sampler=k, times=len(o), log=log)
        check(log[t[0]][2] == size, "a sampler is drawn with the wrong size")
        check(not o or o[0] > t[0], "observed values are drawn before the true ones", sampler=k)
        pos[i] = (t[0], max(t + o))
    for i in range(n):
        for j in sec[i]:
            check(pos[j][1] < pos[i][0], "a sampler is drawn before its secondary", sampler=NAMES[i], secondary=NAMES[j], log=log)
    if derived is not None:
        l = [p for p, e in enumerate(log) if e[0] == "luminosity"]
        check(len(l) == 1, "the luminosity is not derived exactly once", log=log)
        check(all(pos[j][1] < l[0] for j in list(sec[derived]) + [derived]), "the luminosity is derived before its samplers are drawn", log=log)
    # values, recomputed from the survey
    d, L = w.arr(pop.distances), w.arr(pop.luminosities)
    theta, phi = w.arr(pop.theta), w.arr(pop.phi)
    true, seen = {}, {}

    def value(i):
        if i in true:
            return
        k = NAMES[i]
        s = W.samplers[k]
        for j in sec[i]:
            value(j)
        secs = {NAMES[j]: (true[j], seen[j]) for j in sec[i]}
        true[i] = s.gain * w.scripted_true(k, size, secs, d if s.uses_distance else None, L if s.uses_luminosity else None)
        seen[i] = w.scripted_obs(k, true[i]) if (obs[i] and i != derived) else true[i]

    for i in range(n):
        value(i)
    if derived is not None:
        exp = 3.0 * true[derived] + 1.0
        for j in sec[derived]:
            exp = exp + true[j]
        check(np.allclose(L, exp, rtol=1e-12), "the luminosity is not derived from the samplers of this survey", got=L, expected=exp)
    for i in range(n):
        k = NAMES[i]
        v = getattr(pop, k, None)
        check(v is not None, "the survey lacks the values of a sampler", sampler=k)
        check(np.allclose(w.arr(v.latent), true[i], rtol=1e-12), "true values do not follow from what the sampler must see in this survey", sampler=k, got=v.latent, expected=true[i])
        check(np.allclose(w.arr(v), seen[i], rtol=1e-12), "observed values are wrong", sampler=k, got=v, expected=seen[i])
        check(k in pop.truth, "the survey lacks the true parameters of a sampler", sampler=k, truth=pop.truth)
        check(w.plain(pop.truth[k]) == {"gain": W.samplers[k].gain}, "the true parameters of a sampler are wrong", sampler=k, truth=pop.truth)
        shown = rec[k].shown
        check(shown, "a sampler is not shown the spatial values", sampler=k)
        for x, y in zip(shown[-1], (d, theta, phi, np.rad2deg(phi), 90 - np.rad2deg(theta))):
            check(np.array_equal(x, y), "a sampler is shown other spatial values than those of the survey", sampler=k)
    extra = set(pop.truth) - {NAMES[i] for i in range(n)} - {W.spatial.name}
    if derived is None:
        extra -= {W.lum.name}
        check(W.lum.name in pop.truth, "the truth lacks the luminosity function")
    check(not extra, "the truth has entries for what is not configured", extra=extra)
    check(w.plain(pop.truth[W.spatial.name]) == w.plain(W.spatial.truth), "the truth of the spatial distribution is wrong")
