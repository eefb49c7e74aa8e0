"""C14: quantitative value of information and control equal brute-force differences of optima and respect the graphical verdicts."""
from __future__ import annotations

import random
from typing import Any, Dict, List, Optional

import numpy as np

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.hooks import query_monitor
from rv.ref import Diagram, Game

RULE = (
    "random parameterised single-agent diagrams of 3 to 6 nodes with one or two decisions, with and without sufficient recall, "
    "deterministic, sparse and generic mechanisms, utilities that influence other nodes, utilities that pay for matching or for every combination of two or three decisions and a chance variable, observed and unobserved nodes, "
    "decisions with and without policies already in place; quantitative_voi and quantitative_voc of every admissible node "
    "against maxima over all pure policies of the correspondingly edited specification (plain einsum), their sign, and "
    "zero wherever the independent graphical criterion denies the incentive. Distinct by model and node."
)
ASSUMPTIONS = ["at most 256 joint pure policies after the edit (64 without sufficient recall)"]
MIN_EVENTS = {"voi_compared": 120, "voi_positive": 10, "voi_denied": 40, "voc_compared": 150, "voc_positive": 50, "voc_denied": 20, "voc_utility": 40, "voc_inner_utility": 4, "two_decisions": 40, "without_recall": 2, "observed_already": 20, "refused": 80}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, single=46 * k, two=34 * k, obs=28 * k, team=30 * k, example=12)


def worth(s: gen.Spec, extra: List[str]) -> Optional[float]:
    """Best expected utility over pure rules of the decisions and of the extra nodes; None: too many policies."""
    ds = s.decisions + [x for x in extra if x not in s.decisions]
    net = s.net()
    game = Game(net, ds, {0: s.utilities})
    if np.prod([game.n_rules(d) for d in ds], dtype=float) > 256:
        return None
    return game.best(0, ds, {})


def reshape(s: gen.Spec, edges: List[Any]) -> gen.Spec:
    s2 = s.copy()
    s2.edges = list(edges)
    for d in s2.decisions:
        s2.nopolicy.add(d)
    return s2


def run_case(case: Dict[str, Any], m: Any) -> None:
    import importlib

    vi, vc = (importlib.import_module("pycid.analyze." + n) for n in ("value_of_information", "value_of_control"))
    rng = rng_of("C14", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = [n for n in example_builders() if "cids." in n and "macid" not in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        if not all(model.get_cpds(v) is not None for v in model.nodes) or not model.utilities:
            m.event("example_without_mechanisms")
            return
        s = gen.Spec()
        s.kind = "cid"
        s.nodes, s.edges = list(model.nodes), list(model.edges)
        s.agents = {0: {"D": list(model.agent_decisions[0]), "U": list(model.agent_utilities[0])}}
        s.dom = {v: list(model.model.domain[v]) for v in s.nodes}
        s.nopolicy = set(s.decisions)
        for v in s.nodes:
            if v not in s.nopolicy:
                s.tables[v] = gen.cpd_to_table(model, v, s.parents(v), s.dom)
    else:
        for _ in range(60):
            s = gen.team(rng) if kind == "team" else gen.retry(
                rng, gen.rand_diagram, longer=0.2, kind="cid", n=(3, 6), agents=1, decs=(2, 2) if kind == "two" else (1, 1), utils=(1, 3), maxdom=3, max_in=3, max_rules=27,
                connected=rng.random() < 0.8, recall=rng.random() < (0.5 if kind == "two" else 0.8), modes=rng.choice([("free", "det"), ("coarse", "det"), ("free",), ("sparse", "free")]),
                util_leaf=rng.random() < 0.5, density=0.7 if kind == "obs" else None, policies=rng.choice([0, 0, 0, 0.5]),
            )
            if kind != "team" and rng.random() < 0.6:
                for u in s.utilities:
                    gen.coordinate(rng, s, u)
            if worth(reshape(s, s.edges), []) is not None:
                break
        else:
            return
        model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    g = s.diagram()
    base = worth(reshape(s, s.edges), [])
    if base is None:
        m.event("example_too_large")
        return
    scale = max([1.0, abs(base)] + [abs(x) for u in s.utilities for x in s.dom[u]])
    tol = 1e-7 * scale
    recall = g.sufficient_recall()
    if len(s.decisions) > 1:
        m.event("two_decisions")
    if not recall:
        m.event("without_recall")
    m.evaluated([kind, s.describe()])
    red = g.requisite_graph() if recall else None
    with query_monitor(m, limit=60):
        for d in s.decisions:
            below = g.desc(d) | {d}
            cand = [x for x in s.nodes if x not in below]
            for x in rng.sample(cand, min(2, len(cand))):
                without = [e for e in s.edges if e != (x, d)]
                s1, s0 = reshape(s, without + [(x, d)]), reshape(s, without)
                hi, lo = worth(s1, []), worth(s0, [])
                if hi is None or lo is None:
                    m.event("too_many_policies")
                    continue
                g1 = g if (x, d) in s.edges else g.alter(add=[(x, d)])
                if not g1.sufficient_recall() and np.prod([Game(s1.net(), s.decisions, {0: s.utilities}).n_rules(e) for e in s.decisions], dtype=float) > 64:
                    m.event("too_many_policies")
                    continue
                if (x, d) in s.edges:
                    m.event("observed_already")
                got = float(vi.quantitative_voi(model, d, x))
                m.event("voi_compared")
                m.event("voi_positive", int(hi - lo > tol))
                m.require(abs(got - (hi - lo)) <= tol, "voi-wrong", f"quantitative_voi({d}, {x}) is {got}, the optima differ by {hi} - {lo} = {hi - lo}", s.describe)
                m.require(got >= -tol, "voi-negative", f"quantitative_voi({d}, {x}) is {got}", s.describe)
                if recall and not (x in g1.requisite_graph().pa[d]):
                    m.event("voi_denied")
                    m.require(abs(got) <= tol, "voi-positive-though-denied", f"quantitative_voi({d}, {x}) is {got} though no value of information is admitted", s.describe)
                    m.require(not vi.admits_voi(model, d, x), "voi-verdict", f"admits_voi({d}, {x}) admits what the criterion denies", s.describe)
            for x in below:
                try:
                    r = vi.quantitative_voi(model, d, x)
                except ValueError:
                    m.event("refused")
                else:
                    m.violation("voi-of-descendant", f"quantitative_voi({d}, {x}) = {r} though {x} is the decision or downstream of it", s.describe())
        for f in (lambda: vi.quantitative_voi(model, s.decisions[0], "no_such"), lambda: vc.quantitative_voc(model, "no_such")):
            try:
                f()
            except KeyError:
                m.event("refused")
            else:
                m.violation("unknown-node-accepted", "a quantitative value of an unknown node was answered", s.describe())
        some = rng.sample(s.nodes, min(2 if kind != "single" else 3, len(s.nodes)))
        if kind == "team":
            some = list(dict.fromkeys([v for v in s.parents(s.utilities[0]) if v not in s.decisions] + some))[:2]
        for x in some:
            leaf = not g.ch[x]
            if x in s.utilities and leaf:
                rest = reshape(s, s.edges)
                rest.agents[0]["U"] = [u for u in s.utilities if u != x]
                v = worth(rest, []) if rest.utilities else 0.0
                hi = None if v is None else v + max(s.dom[x])
                m.event("voc_utility")
            else:
                hi = worth(reshape(s, s.edges), [x])
                if x in s.utilities:
                    m.event("voc_utility")
                    m.event("voc_inner_utility")
            if hi is None:
                m.event("too_many_policies")
                continue
            if not leaf or x not in s.utilities:
                g2 = Diagram(s.nodes, s.edges, {0: {"D": s.decisions + [x] * (x not in s.decisions), "U": [u for u in s.utilities]}})
                if not g2.sufficient_recall() and np.prod([Game(s.net(), g2.decisions, {0: s.utilities}).n_rules(e) for e in g2.decisions], dtype=float) > 64:
                    m.event("too_many_policies")
                    continue
            got = float(vc.quantitative_voc(model, x))
            m.event("voc_compared")
            m.event("voc_positive", int(hi - base > tol))
            m.require(abs(got - (hi - base)) <= tol, "voc-wrong", f"quantitative_voc({x}) is {got}, the optima differ by {hi} - {base} = {hi - base}", s.describe)
            m.require(got >= -tol, "voc-negative", f"quantitative_voc({x}) is {got}", s.describe)
            if red is not None and (x in s.decisions or not any(u == x or u in red.desc(x) for u in s.utilities)):
                m.event("voc_denied")
                m.require(abs(got) <= tol, "voc-positive-though-denied", f"quantitative_voc({x}) is {got} though no value of control is admitted", s.describe)
                m.require(not vc.admits_voc(model, x), "voc-verdict", f"admits_voc({x}) admits what the criterion denies", s.describe)
