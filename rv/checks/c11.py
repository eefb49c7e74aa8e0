"""C11: r- and s-reachability, relevance graphs, their condensation and recall follow the graphical criterion."""
from __future__ import annotations

import random
from typing import Any, Dict, List

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.ref import Diagram, Graph

RULE = (
    "random single- and multi-agent structures of 3 to 9 nodes (one to three agents, several decisions each, agents without "
    "utilities, utilities with children, decisions without observations), one agent with up to six decisions that forgets little or nothing, rings of agents that rely on each other only around the ring, and the bundled examples; every pair and random "
    "sets of nodes through is_r_reachable and is_s_reachable, relevance graphs over all and chosen decisions, condensation "
    "order and recall of every agent, against moralisation-based d-separation. Distinct by structure."
)
ASSUMPTIONS = ["up to 9 nodes"]
MIN_EVENTS = {"pairs_compared": 4000, "sets_compared": 600, "graphs_compared": 250, "condensations_compared": 150, "recall_compared": 250, "recall_absent": 25, "long_recall": 18, "late_recall_absent": 6, "multi_scc": 40, "big_scc": 15, "only_long_cycles": 6}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, single=150 * k, multi=250 * k, dense=150 * k, ring=40 * k, late=40 * k, example=20 if tier == "quick" else 60)


def forgetful(rng: random.Random) -> gen.Spec:
    """One agent with many decisions, each observing the earlier ones and what they observed, but for a few things."""
    s = gen.Spec()
    s.kind = rng.choice(["cid", "macid", "macidbase"])
    k = rng.randint(4, 6)
    pool = list(rng.choice(gen.NAME_POOLS))
    rng.shuffle(pool)
    ds, (u, x, y) = pool[:k], pool[k : k + 3]
    edges = [(a, b) for i, a in enumerate(ds) for b in ds[i + 1 :]] + [(d, u) for d in ds] + [(x, u)]
    first = rng.randrange(k)
    edges += [(x, d) for d in ds[first:]] + [(y, x)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        late = [e for e in edges if e[1] in ds and (rng.random() < 0.3 or ds.index(e[1]) >= k - 2)]
        if late:
            edges.remove(rng.choice(late))
    rng.shuffle(edges)
    s.edges = edges
    s.nodes = list(dict.fromkeys(v for e in edges for v in e))
    rng.shuffle(s.nodes)
    s.agents = {0: {"D": [d for d in rng.sample(ds, k) if d in s.nodes], "U": [u]}}
    s.nopolicy = set(s.agents[0]["D"])
    for v in s.nodes:
        s.dom[v] = [0, 1]
    return s


def structure(rng: random.Random, kind: str) -> gen.Spec:
    n = rng.choice([1, 1, 2]) if kind == "single" else rng.choice([2, 2, 3])
    single = kind == "single"
    if kind == "late":
        return forgetful(rng)
    s = gen.retry(
        rng, gen.rand_diagram, longer=0.2, cap=1e99, kind="cid" if single else rng.choice(["macid", "macidbase"]), n=(3, 9), agents=1 if single else n,
        decs=rng.choice([(1, 2), (2, 3), (1, 4)]) if single else rng.choice([(1, 1), (1, 2), (1, 3)]), utils=rng.choice([(1, 1), (1, 3)]),
        max_in=rng.choice([2, 3, 5]), max_rules=10**30, connected=rng.random() < 0.7, util_leaf=rng.random() < 0.6,
        density=rng.choice([0.5, 0.7, 0.9]) if kind == "dense" else None, recall=rng.random() < 0.2,
        labels=(0,) if single else rng.choice([(0, 1, 2), ("x", "y", "z"), (2, 1, 0)]), tries=2000,
    )
    return s


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C11", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = [n for n in example_builders() if "cbn" not in n]
        name = names[case["i"] % len(names)]
        model = example_builders()[name]()
        g = Diagram(list(model.nodes), list(model.edges), {a: {"D": model.agent_decisions.get(a, []), "U": model.agent_utilities[a]} for a in model.agents})
        what: Any = name
        if len(g.nodes) > 14:
            return
    else:
        s = gen.ring(rng, rng.choice(["macid", "macidbase"])) if kind == "ring" else structure(rng, kind)
        model = gen.make_structure(gen.add_latents(rng, s, 0.08))
        if rng.random() < 0.15 and s.kind != "cid":
            a = rng.choice(list(s.agents))
            for u in list(s.agents[a]["U"]):
                model.make_chance(u)
                s.agents[a]["U"].remove(u)
        g = s.diagram()
        what = {"edges": s.edges, "agents": {str(a): x for a, x in s.agents.items()}}
    m.evaluated([what, g.nodes])
    ds = list(g.decisions)
    wit = lambda: {"edges": g.edges(), "agents": {str(a): x for a, x in g.agents.items()}}  # noqa: E731
    truth = {(d, v): g.r_reachable(d, v) for d in ds for v in g.nodes}
    pairs = list(truth)
    if len(pairs) > 40:
        pairs = rng.sample(pairs, 40)
    for d, v in pairs:
        m.event("pairs_compared")
        got = model.is_r_reachable(d, v) if rng.random() < 0.7 else model.is_r_reachable([d], {v})
        m.require(bool(got) == truth[d, v], "r-reachable-wrong", f"is_r_reachable({d}, {v}) is {got}, the criterion gives {truth[d, v]}", wit)
    for _ in range(6):
        a, b = rng.sample(ds, rng.randint(1, len(ds))), rng.sample(g.nodes, rng.randint(1, min(3, len(g.nodes))))
        want = any(truth[d, v] for d in a for v in b)
        got = model.is_r_reachable(rng.choice([list, set, tuple])(a), rng.choice([list, set, tuple])(b))
        m.event("sets_compared")
        m.require(bool(got) == want, "r-reachable-set-wrong", f"is_r_reachable({a}, {b}) is {got}, the criterion gives {want}", wit)
        e, f = rng.choice(ds), rng.choice(ds)
        m.event("pairs_compared")
        m.require(bool(model.is_s_reachable(e, f)) == truth[e, f], "s-reachable-wrong", f"is_s_reachable({e}, {f}) is not {truth[e, f]}", wit)
        b = rng.sample(ds, rng.randint(1, len(ds)))
        want = any(truth[d, v] for d in a for v in b)
        m.event("sets_compared")
        m.require(bool(model.is_s_reachable(list(a), rng.choice([list, set, tuple])(b))) == want, "s-reachable-set-wrong", f"is_s_reachable({a}, {b}) is not {want}", wit)
    from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph

    for sub in [None, rng.sample(ds, rng.randint(1, len(ds)))]:
        rg = RelevanceGraph(model) if sub is None else RelevanceGraph(model, list(sub))
        chosen = ds if sub is None else sub
        want_e = {(a, b) for a in chosen for b in chosen if a != b and truth[a, b]}
        m.event("graphs_compared")
        m.require(set(rg.nodes) == set(chosen), "relevance-nodes", f"the relevance graph over {chosen} has nodes {list(rg.nodes)}", wit)
        m.require(set(rg.edges) == want_e, "relevance-edges", f"the relevance graph over {chosen} has edges {sorted(rg.edges)}, the criterion gives {sorted(want_e)}", wit)
        ref = Graph(chosen, want_e)
        m.require(bool(rg.is_acyclic()) == ref.acyclic(), "relevance-acyclic", f"is_acyclic() is {rg.is_acyclic()}", wit)
        sccs = {frozenset(x for x in chosen if x == d or (x in ref.desc(d) and d in ref.desc(x))) for d in chosen}
        m.require({frozenset(x) for x in rg.get_sccs()} == sccs and len(list(rg.get_sccs())) == len(sccs), "relevance-sccs", f"get_sccs() is {list(rg.get_sccs())}, expected {sccs}", wit)
    if ds:
        full = Graph(ds, g.relevance_edges())
        sccs = {frozenset(x) for x in g.sccs()}
        cg = CondensedRelevanceGraph(model)
        order = [frozenset(x) for x in cg.get_scc_topological_ordering()]
        m.event("condensations_compared")
        if len(sccs) > 1:
            m.event("multi_scc")
        if not full.acyclic() and not any((b, a) in set(full.edges()) for a, b in full.edges()):
            m.event("only_long_cycles")
        if any(len(x) > 1 for x in sccs):
            m.event("big_scc")
        m.require(set(order) == sccs and len(order) == len(sccs), "condensation-sets", f"the condensation groups {order}, mutual reachability gives {sccs}", wit)
        m.require(sum(len(x) for x in cg.get_scc_topological_ordering()) == len(ds), "condensation-sets", "a decision is listed twice", wit)
        pos = {d: i for i, x in enumerate(order) for d in x}
        bad = [(a, b) for a, b in full.edges() if pos[a] > pos[b]]
        m.require(not bad, "condensation-order", f"the order {order} puts {bad} the wrong way round", wit)
        by = cg.get_decisions_in_scc()
        m.require({frozenset(x) for x in by.values()} == sccs, "condensation-mapping", f"get_decisions_in_scc() is {by}", wit)
        # the condensation's own edges are those between the groups
        comp = {d: k for k, x in by.items() for d in x}
        want_c = {(comp[a], comp[b]) for a, b in full.edges() if comp[a] != comp[b]}
        m.require(set(cg.edges) == want_c and set(cg.nodes) == set(by), "condensation-edges", f"the condensation has edges {sorted(cg.edges)}, expected {sorted(want_c)}", wit)
    for a in g.agents:
        want = g.sufficient_recall(a)
        m.event("recall_compared")
        if len(g.agents[a]["D"]) > 3:
            m.event("long_recall")
            m.event("late_recall_absent", int(not want))
        if not want:
            m.event("recall_absent")
        m.require(bool(model.sufficient_recall(a)) == want, "recall-wrong", f"sufficient_recall({a!r}) is not {want}", wit)
    m.require(bool(model.sufficient_recall()) == g.sufficient_recall(), "recall-wrong", f"sufficient_recall() is not {g.sufficient_recall()}", wit)
