"""
P16: the dependency graph shows exactly the configured dependencies.

All dependency graphs of up to N samplers, times which are observed, which use
the distance, and the luminosity source; and all sequences of operations that
change the configuration, with surveys and inspection in between. Oracle: nodes
and edges written down from the configuration.
"""
import itertools

from mc.core import check
from mc import p05
from mc import world as w

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all dependency graphs and operation sequences up to a bound"
BOUNDS = {
    "quick": "all acyclic graphs of <= 4 samplers x observed/distance patterns x derived luminosity; 40 graphs of 6 to 15 samplers; also with names such as 'a b', 'items', '1' and 'null'; all sequences of <= 4 of 14 operations",
    "thorough": "all acyclic graphs of <= 5 samplers; all sequences of <= 5 of 14 operations",
}
ASSUMPTIONS = ["nodes are named after the distributions and samplers, <name>_obs and obs_flux, as the graph has always named them"]
CHUNK = 16

from popsynth.auxiliary_sampler import NonObservedAuxSampler  # noqa: E402


class McLatent(NonObservedAuxSampler):
    """A sampler of the kind that is never observed"""

    _auxiliary_sampler_name = "McLatent"

    def true_sampler(self, size):
        self._true_values = list(range(size))


def cases(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for sec in p05.dags(n) if n else [()]:
            yield dict(sec=sec)
    for sec in p05.large():
        yield dict(sec=sec)
        yield dict(sec=sec, odd=True)
    for n in range(1, 4):
        for sec in p05.dags(n):
            yield dict(sec=sec, odd=True)
    for depth in range(0, 5 if tier == "quick" else 6):
        for seq in itertools.product(range(len(OPS)), repeat=depth):
            yield dict(ops=list(seq))


def expected(spatial, lum, derived, samplers, tops):
    """Nodes (with what is observed) and edges from the configuration"""
    nodes = {spatial: False, "obs_flux": True}
    edges = {(spatial, "obs_flux")}
    reach = []

    def visit(k):
        if k in reach:
            return
        reach.append(k)
        for s in samplers[k]["sec"]:
            edges.add((s, k))
            visit(s)

    for k in tops:
        visit(k)
    if derived is not None:
        visit(derived)
        edges.add((derived, "obs_flux"))
    elif lum is not None:
        nodes[lum] = False
        edges.add((lum, "obs_flux"))
    for k in reach:
        nodes[k] = False
        if samplers[k]["obs"]:
            nodes[k + "_obs"] = True
            edges.add((k, k + "_obs"))
        if samplers[k]["dist"]:
            edges.add((spatial, k))
    return nodes, edges


def check_graph(g, exp, what):
    nodes, edges = exp
    check(g.is_directed(), "%s is not directed" % what)
    check(set(g.nodes) == set(nodes), "%s has the wrong nodes" % what, extra=set(g.nodes) - set(nodes), missing=set(nodes) - set(g.nodes))
    check(set(g.edges) == edges, "%s has the wrong edges" % what, extra=set(g.edges) - edges, missing=edges - set(g.edges))
    for k, o in nodes.items():
        check(bool(g.nodes[k].get("observed", False)) == o, "%s is wrong about what is observed" % what, node=k)


def run(case, cov):
    if "ops" in case:
        return run_ops(case, cov)
    NAMES = p05.names_of(case)
    sec = case["sec"]
    n = len(sec)
    roots = [i for i in range(n) if not any(i in s for s in sec)]
    if n <= 3:
        obs_pats = list(itertools.product((True, False), repeat=n))
        dist_pats = obs_pats
    else:
        obs_pats = [(True,) * n, (False,) * n, tuple(i % 2 == 0 for i in range(n))]
        dist_pats = [(True,) * n, (False,) * n, tuple(i % 2 == 1 for i in range(n))]
    for derived in [None] + (roots if n <= 5 else roots[:1] + roots[-1:]):
        for obs in obs_pats:
            if derived is not None and not obs[derived]:
                continue
            for dist in dist_pats:
                aux, samplers = [], {}
                for i in range(n):
                    k = NAMES[i]
                    a = dict(name=k, secondary=[NAMES[j] for j in sec[i]])
                    if i == derived:
                        a.update(type="McDerived", kwargs={"uses_distance": dist[i]})
                    elif not obs[i] and i % 2 == dist[0]:
                        a.update(type="McLatent", kwargs={"uses_distance": dist[i]})
                    else:
                        a.update(type="McAux", observed=obs[i], kwargs={"uses_distance": dist[i]})
                    aux.append(a)
                    samplers[k] = dict(sec=[NAMES[j] for j in sec[i]], obs=obs[i] and i != derived, dist=dist[i])
                tops = [NAMES[i] for i in roots]
                for lum in (True, False):
                    if not lum and derived is None and n > 2:
                        continue
                    W = w.World(dict(aux=aux, top=tops, lum=w.LUM["pareto"] if lum else None))
                    d = None if derived is None else NAMES[derived]
                    e = expected(W.spatial.name, W.lum.name if lum else None, d, samplers, [t for t in tops if t != d])
                    check_graph(W.synth.graph, e, "the graph of the synth")
                    cov.step()
                    cov.state((sec, derived, obs, dist, lum))
                    cov.outcome((len(e[0]), tuple(sorted(e[1]))))
                    if lum or derived is not None:
                        if n <= 3 or obs[0]:
                            pop = W.synth.draw_survey(n_samples=1)
                            cov.step()
                            check_graph(pop.graph, e, "the graph of the survey")
                            check_graph(W.synth.graph, e, "the graph of the synth after a draw")


OPS = [
    "add a",
    "add b",
    "add c",
    "add e",
    "add k",
    "secondary a",
    "secondary e",
    "secondary deep",
    "clean",
    "draw",
    "graph",
    "flux",
    "edit",
    "dict",
]


def run_ops(case, cov):
    W = w.World(dict(aux=[
        dict(name="a", type="McAux", kwargs={"uses_distance": True}),
        dict(name="b", type="McAux", observed=False),
        dict(name="s", type="McAux", kwargs={"uses_distance": True}),
        dict(name="c", type="McAux", secondary=["s"], observed=False),
        dict(name="x", type="McAux"),
        dict(name="y", type="McAux", observed=False),
        dict(name="u", type="McAux"),
        dict(name="e", type="McDerived"),
        dict(name="v", type="McAux", observed=False),
        dict(name="k", type="McDerived", kwargs={"uses_distance": True}, secondary=["v"]),
    ]))
    samplers = {
        k: dict(sec=list(s.secondary_samplers), obs=s.observed, dist=s.uses_distance) for k, s in W.samplers.items()
    }
    tops, derived = [], None
    kept = []
    for i in case["ops"]:
        op = OPS[i]
        cov.step()
        if op.startswith("add "):
            k = op[4:]
            if k in tops:
                continue
            W.synth.add_observed_quantity(W.samplers[k])
            if k in ("e", "k"):
                derived = k
            else:
                tops.append(k)
        elif op.startswith("secondary "):
            p, s = {"a": ("a", "x"), "e": ("e", "y"), "deep": ("s", "u")}[op[10:]]
            if s not in samplers[p]["sec"]:
                W.samplers[p].set_secondary_sampler(W.samplers[s])
                samplers[p]["sec"].append(s)
        elif op == "clean":
            W.synth.clean()
            tops, derived = [], None
        elif op == "draw":
            pop = W.synth.draw_survey(n_samples=1)
            e = expected(W.spatial.name, W.lum.name, derived, samplers, tops)
            kept.append((pop, e))
        elif op == "graph":
            W.synth.graph
        elif op == "flux":
            W.synth.set_flux_selection(w.McMask(mask=lambda n: [True] * n))
        elif op == "edit":
            # somebody edits the graph they were given
            for p, _ in kept[:0]:
                pass
            W.synth.graph.add_edge("foo", "bar")
        elif op == "dict":
            W.synth.to_dict()
    e = expected(W.spatial.name, W.lum.name, derived, samplers, tops)
    what = "after %s the graph" % ", ".join(OPS[i] for i in case["ops"])
    check_graph(W.synth.graph, e, what)
    for pop, x in kept:
        check_graph(pop.graph, x, what + " of an earlier survey")
    pop = W.synth.draw_survey(n_samples=1)
    check_graph(pop.graph, e, what + " of the survey")
    cov.state((tuple(tops), derived, tuple(sorted((k, tuple(v["sec"])) for k, v in samplers.items()))))
    cov.outcome((tuple(sorted(e[1]))))
    w.LOG.clear()
