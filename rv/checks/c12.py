"""C12: requisite graph, value of information and response incentives follow their graphical definitions."""
from __future__ import annotations

import itertools
import random
from typing import Any, Dict, List

import numpy as np

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.ref import Diagram, Game

RULE = (
    "random single-agent structures of 3 to 9 nodes with one to three decisions (perfect recall added or arising by chance) "
    "and random multi-agent structures for the requisite graph; requisite, requisite_list, requisite_graph, admits_voi, "
    "admits_ri and their list forms for every decision and node against a one-at-a-time reduction with its own d-separation; "
    "on small parameterised diagrams the best expected utility before and after reduction by brute force. Distinct by structure."
)
ASSUMPTIONS = ["up to 9 nodes; optima by enumerating at most 256 joint pure policies"]
MIN_EVENTS = {"requisite_compared": 500, "links_removed": 200, "graphs_compared": 250, "voi_compared": 1500, "voi_admitted": 150, "ri_compared": 1500, "ri_admitted": 100, "optimum_kept": 25, "optimum_kept_after_removal": 12, "several_decisions": 60, "chain_reduction": 20}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, cid=400 * k, macid=150 * k, optimum=80 * k, example=16 if tier == "quick" else 32)


def run_case(case: Dict[str, Any], m: Any) -> None:
    import importlib

    rq, vi, ri = (importlib.import_module("pycid.analyze." + n) for n in ("requisite_graph", "value_of_information", "response_incentive"))
    rng = rng_of("C12", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "optimum":
        return optimum(rng, m, rq)
    if kind == "example":
        names = [n for n in example_builders() if "cids." in n and "macid" not in n]
        name = names[case["i"] % len(names)]
        model = example_builders()[name]()
        g = Diagram(list(model.nodes), list(model.edges), {a: {"D": model.agent_decisions.get(a, []), "U": model.agent_utilities[a]} for a in model.agents})
    else:
        single = kind == "cid"
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.2, cap=1e99, kind="cid" if single else rng.choice(["macid", "macidbase"]), n=(3, 9), agents=1 if single else 2,
            decs=rng.choice([(1, 1), (1, 2), (2, 3)]), utils=rng.choice([(1, 1), (1, 3)]), max_in=rng.choice([3, 4, 5]), max_rules=10**30,
            connected=rng.random() < 0.8, util_leaf=rng.random() < 0.7, recall=rng.random() < (0.7 if single else 0.3), tries=2000,
        )
        model, g = gen.make_structure(gen.add_latents(rng, s, 0.08)), s.diagram()
    wit = lambda: {"edges": g.edges(), "agents": {str(a): x for a, x in g.agents.items()}}  # noqa: E731
    m.evaluated([kind, wit()])
    # single links
    for d in g.decisions:
        want = [x for x in g.pa[d] if g.requisite(d, x)]
        for x in g.pa[d]:
            m.event("requisite_compared")
            m.require(bool(rq.requisite(model, d, x)) == (x in want), "requisite-wrong", f"requisite({d}, {x}) is not {x in want}", wit)
        got = rq.requisite_list(model, d)
        m.require(sorted(got) == sorted(want), "requisite-list-wrong", f"requisite_list({d}) is {got}, expected {want}", wit)
    red = g.requisite_graph()
    live = rq.requisite_graph(model)
    m.event("graphs_compared")
    m.event("links_removed", len(g.edges()) - len(red.edges()))
    once = {(x, d) for d in g.decisions for x in g.pa[d] if not g.requisite(d, x)}
    if set(g.edges()) - set(red.edges()) - once:
        m.event("chain_reduction")  # some link becomes nonrequisite only after another is gone
    m.require(
        set(live.edges) == set(red.edges()) and set(live.nodes) == set(g.nodes), "requisite-graph-wrong",
        lambda: f"requisite_graph removes {sorted(set(g.edges()) - set(live.edges))}, repeated removal gives {sorted(set(g.edges()) - set(red.edges()))}", wit,
    )
    m.require(set(live.decisions) == set(g.decisions) and set(live.utilities) == set(g.utilities), "requisite-graph-roles", "the requisite graph has other roles", wit)
    if len(g.agents) > 1:
        return
    if not g.sufficient_recall():
        m.event("without_recall")
        return
    if len(g.decisions) > 1:
        m.event("several_decisions")
    for d in g.decisions:
        below = g.desc(d)
        want_vi, want_ri = set(), set()
        for x in g.nodes:
            if x != d and x not in below and x not in g.pa[d]:
                g2 = g.alter(add=[(x, d)])
            else:
                g2 = g
            v = x != d and x not in below and x in g2.requisite_graph().pa[d]
            if v:
                want_vi.add(x)
            if x != d and d in red.desc(x):
                want_ri.add(x)
            m.event("voi_compared")
            m.event("ri_compared")
            m.event("voi_admitted", int(v))
            m.event("ri_admitted", int(x in want_ri))
            m.require(bool(vi.admits_voi(model, d, x)) == v, "voi-wrong", f"admits_voi({d}, {x}) is not {v}", wit)
            m.require(bool(ri.admits_ri(model, d, x)) == (x in want_ri), "ri-wrong", f"admits_ri({d}, {x}) is not {x in want_ri}", wit)
        got = vi.admits_voi_list(model, d)
        m.require(sorted(got) == sorted(want_vi), "voi-list-wrong", f"admits_voi_list({d}) is {sorted(got)}, expected {sorted(want_vi)}", wit)
        got = ri.admits_ri_list(model, d)
        m.require(sorted(got) == sorted(want_ri), "ri-list-wrong", f"admits_ri_list({d}) is {sorted(got)}, expected {sorted(want_ri)}", wit)


def optimum(rng: random.Random, m: Any, rq: Any) -> None:
    """The reduced diagram is worth as much, computed from the live reduced model's own tables."""
    for _ in range(50):
        s = gen.retry(rng, gen.rand_diagram, longer=0.2, kind="cid", n=(4, 7), agents=1, decs=(1, 2), utils=(1, 2), maxdom=2, max_in=3, max_rules=256, recall=rng.random() < 0.5, density=rng.choice([0.5, 0.7]))
        net = s.net()
        game = Game(net, s.decisions, {0: s.utilities})
        if np.prod([game.n_rules(d) for d in s.decisions], dtype=float) <= 256:
            break
    else:
        return
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    live = rq.requisite_graph(model)
    before = game.best(0, s.decisions, {})
    gone = set(s.edges) - set(live.edges)
    s2 = s.copy()
    s2.edges = [e for e in s.edges if e not in gone]
    for d in s2.decisions:
        s2.tables[d] = np.full([len(s.dom[p]) for p in s2.parents(d)] + [len(s.dom[d])], 1.0 / len(s.dom[d]))
    after = Game(s2.net(), s.decisions, {0: s.utilities}).best(0, s.decisions, {})
    m.event("optimum_kept")
    if gone:
        m.event("optimum_kept_after_removal")
    m.evaluated([s.describe(), "optimum"])
    m.require(abs(before - after) < 1e-9 * max(1, abs(before)), "reduction-loses-value", f"removing {sorted(gone)} changes the best expected utility from {before} to {after}", s.describe)
    # the live reduced model is parameterised and worth the same
    live.impute_optimal_policy()
    v = float(live.expected_utility({}))
    m.require(abs(before - v) < 1e-8 * max(1, abs(before)), "reduced-model-loses-value", f"solving the reduced model gives {v}, the diagram is worth {before}", s.describe)
