"""C06: every question leaves the model and its arguments exactly as they were."""
from __future__ import annotations

import copy
import os
import random
from typing import Any, Callable, Dict, List

from rv import gen
from rv.common import example_builders, make_cases, rand_context, rng_of, seed_globals
from rv.hooks import snapshot, snapshot_diff

RULE = (
    "random models (CBN, CID, MACID; with and without policies; connected and disconnected) and bundled examples; each of "
    "the read-only operations of the public interface is called with random valid or invalid arguments while a monitor "
    "compares full snapshots (nodes, edges and their order, roles, agents, domains, mechanism object identities, table "
    "contents) and deep copies of the arguments before and after, whether it answered or raised. Distinct by model, "
    "operation and arguments."
)
ASSUMPTIONS = ["the global random state is not part of a model (RandomCPD's own effect on it is C21)"]
OPS = [
    "query", "query_intervened", "query_bad", "expected_value", "expected_utility", "reachability", "recall", "rules", "optimal",
    "solve", "structure", "analysis", "quantitative", "paths", "patterns", "equilibrium", "subgame", "export", "sample", "draw", "scm", "copies", "effects",
]
MIN_EVENTS = {"answered": 1200, "every_rule_in_place": 10, **{f"op_{o}": 5 for o in OPS}}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 14
    return make_cases(seed, chance=60 * k, cid=90 * k, macid=70 * k, example=50 if tier == "quick" else 300, lists=60 * k)


class Guard:
    def __init__(self, m: Any, model: Any, what: Any):
        self.m, self.model, self.what = m, model, what

    def call(self, op: str, f: Callable[..., Any], *args: Any, consume: bool = False, **kw: Any) -> Any:
        before = snapshot(self.model)
        a0, k0 = copy.deepcopy(args_plain(args)), copy.deepcopy(args_plain(kw))
        res, how = None, "answered"
        try:
            res = f(*args, **kw)
            if consume:
                res = list(res)
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001  (whether it may refuse is judged elsewhere)
            how = f"raised {type(e).__name__}"
        self.m.event("answered" if how == "answered" else "refused")
        self.m.event(f"op_{op}")
        name = getattr(f, "__name__", op)
        self.m.evaluated([self.what, op, name, repr(args)[:300], repr(kw)[:200]])
        diff = snapshot_diff(before, snapshot(self.model))
        self.m.require(diff == [], f"changed-by-{op}:{name}", f"{name}{args_plain(args)} ({how}) changed the model: {diff}", lambda: {"before": repr(before)[:2000]})
        self.m.require(args_plain(args) == a0 and args_plain(kw) == k0, f"argument-changed-by-{op}:{name}", f"{name} changed its arguments from {a0} {k0} to {args_plain(args)} {args_plain(kw)}")
        return res


def args_plain(x: Any) -> Any:
    if isinstance(x, (list, tuple)):
        return [args_plain(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((args_plain(i) for i in x), key=repr)
    if isinstance(x, dict):
        return [[k, args_plain(v)] for k, v in x.items()]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return f"<{type(x).__name__}>"


def any_outcome(rng: random.Random, model: Any, v: str) -> Any:
    return rng.choice(list(model.model.domain.get(v, [0])))


def do_op(rng: random.Random, op: str, g: Guard, model: Any) -> None:
    import importlib

    effects, reasoning_patterns, ici, rq, ri, vc, vi = (
        importlib.import_module("pycid.analyze." + n)
        for n in ("effects", "reasoning_patterns", "instrumental_control_incentive", "requisite_graph", "response_incentive",
                  "value_of_control", "value_of_information")
    )
    from pycid.core import get_paths as gp
    from pycid.core.macid_base import MechanismGraph
    from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph
    from pycid.export import gambit

    nodes = list(model.nodes)
    diag = hasattr(model, "decisions")
    pick = lambda: rng.choice(nodes)  # noqa: E731
    ctx = {v: any_outcome(rng, model, v) for v in rng.sample(nodes, min(len(nodes), rng.choice([0, 1, 2])))}
    iv = {v: any_outcome(rng, model, v) for v in rng.sample(nodes, min(len(nodes), rng.choice([1, 2])))}
    qs = rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2])))
    if op == "query":
        g.call(op, model.query, qs, {k: v for k, v in ctx.items() if k not in qs})
    elif op == "query_intervened":
        g.call(op, model.query, qs, {k: v for k, v in ctx.items() if k not in qs}, iv)
        g.call(op, model.query, qs, ctx, intervention=iv)
    elif op == "query_bad":
        g.call(op, model.query, qs, {pick(): "no such outcome"})
        g.call(op, model.query, qs, {}, {"no such node": 1})
        g.call(op, model.query, ["no such node"], {})
    elif op == "expected_value":
        g.call(op, model.expected_value, qs, {k: v for k, v in ctx.items() if k not in qs})
        g.call(op, model.expected_value, qs, {}, iv)
    elif op == "scm":
        g.call(op, model.is_structural_causal_model)
    elif op == "sample":
        g.call(op, model.sample, seed=rng.randrange(1000))
    elif op == "draw":
        g.call(op, model.draw)
        if rng.random() < 0.3:
            g.call(op, model.draw_property, lambda n: n == nodes[0])
        g.call(op, str, model)
        for v in nodes[:2]:
            g.call(op, repr, model.get_cpds(v))
    elif op == "copies":
        g.call(op, model.copy)
        g.call(op, model.copy_without_cpds)
    elif op == "paths":
        a, b = pick(), pick()
        obs = set(rng.sample(nodes, rng.choice([0, 1, 2]) if len(nodes) > 2 else 0))
        g.call(op, gp.find_active_path, model, a, b, obs)
        g.call(op, gp.find_all_dir_paths, model, a, b, consume=True)
        ps = g.call(op, gp.find_all_undir_paths, model, a, b, consume=True)
        for p in (ps or [])[:3]:
            g.call(op, gp.is_active_path, model, p, obs)
            g.call(op, gp.get_motifs, model, p)
        g.call(op, gp.is_active_indirect_frontdoor_trail, model, a, b, obs)
        g.call(op, gp.is_active_backdoor_trail, model, a, b, obs)
        if diag:
            g.call(op, gp.directed_decision_free_path, model, a, b)
    if not diag:
        return
    ds = list(model.decisions)
    agents = list(model.agents)
    if op == "effects":
        a = pick()
        g.call(op, effects.total_effect, model, a, pick(), any_outcome(rng, model, a), any_outcome(rng, model, a))
        g.call(op, effects.introduced_total_effect, model, a, pick(), pick(), any_outcome(rng, model, a), any_outcome(rng, model, a))
    if op == "expected_utility" and agents:
        g.call(op, model.expected_utility, {}, agent=rng.choice(agents))
        g.call(op, model.expected_utility, ctx, iv, rng.choice(agents))
    elif op == "structure":
        g.call(op, MechanismGraph, model)
        g.call(op, RelevanceGraph, model)
        g.call(op, RelevanceGraph, model, list(ds))
        cg = g.call(op, CondensedRelevanceGraph, model)
        if cg is not None:
            g.call(op, cg.get_scc_topological_ordering)
        g.call(op, model.get_valid_order)
        g.call(op, model.get_valid_order, qs)
    elif op == "recall":
        g.call(op, model.sufficient_recall)
        g.call(op, model.sufficient_recall, rng.choice(agents + ["nobody"]))
    if not ds:
        return
    d = rng.choice(ds)
    some = rng.sample(ds, rng.randint(1, len(ds)))
    if op == "reachability":
        g.call(op, model.is_r_reachable, some, qs)
        g.call(op, model.is_r_reachable, d, pick())
        g.call(op, model.is_s_reachable, d, rng.choice(ds))
    elif op == "rules":
        g.call(op, model.pure_decision_rules, d, consume=True)
        g.call(op, model.pure_policies, some, consume=True)
        if hasattr(model, "joint_pure_policies"):
            prof = g.call(op, model.joint_pure_policies, some)
            if prof:
                g.call(op, model.policy_profile_assignment, list(prof[-1]))
    elif op == "optimal":
        own = list(model.agent_decisions[model.decision_agent[d]])
        g.call(op, model.optimal_pure_policies, own)
        g.call(op, model.optimal_pure_policies, set(own))
        g.call(op, model.optimal_pure_decision_rules, d)
        if hasattr(model, "optimal_policies"):
            g.call(op, model.optimal_policies)
    elif op == "solve" and hasattr(model, "solve"):
        g.call(op, model.solve)
    elif op == "analysis":
        x = pick()
        for f in (vi.admits_voi, ri.admits_ri, ici.admits_ici, vc.admits_indir_voc):
            g.call(op, f, model, d, x)
        for f in (vi.admits_voi_list, ri.admits_ri_list, ici.admits_ici_list, vc.admits_indir_voc_list, rq.requisite_list):
            g.call(op, f, model, d)
        g.call(op, vc.admits_voc, model, x)
        g.call(op, vc.admits_dir_voc, model, x)
        g.call(op, vc.admits_voc_list, model)
        g.call(op, vc.admits_dir_voc_list, model)
        g.call(op, rq.requisite_graph, model)
        g.call(op, rq.requisite, model, d, x)
    elif op == "quantitative" and type(model).__name__ == "CID":
        g.call(op, vi.quantitative_voi, model, d, pick())
        g.call(op, vc.quantitative_voc, model, pick())
    elif op == "patterns" and len(nodes) <= 8:
        eff = set(some)
        g.call(op, reasoning_patterns.get_reasoning_patterns, model)
        g.call(op, reasoning_patterns.direct_effect, model, d)
        for f in (reasoning_patterns.manipulation, reasoning_patterns.signaling, reasoning_patterns.revealing_or_denying):
            g.call(op, f, model, d, eff)
    elif op == "equilibrium" and hasattr(model, "get_ne"):
        g.call(op, model.get_ne)
        g.call(op, model.get_ne_in_sg, list(some))
        g.call(op, model.get_ne_in_sg, decisions_in_sg=set(some), solver="enumpure")
        g.call(op, model.get_spe)
        g.call(op, model.get_spe, solver="enumpure")
    elif op == "subgame" and hasattr(model, "create_subgame"):
        g.call(op, model.decs_in_each_maid_subgame)
        g.call(op, model.create_subgame, list(some))
        g.call(op, model.create_subgame, set(some))
    elif op == "export":
        out = g.call(op, gambit.macid_to_efg, model)
        g.call(op, gambit.macid_to_gambit_file, model, os.path.join(os.getcwd(), "x.efg"))
        if out is not None and len(model.agents) == 2:
            game, mp = out
            try:
                strat = gambit.pygambit_ne_solver(game)
            except Exception:  # noqa: BLE001
                strat = []
            for b in strat[:2]:
                g.call(op, gambit.behavior_to_cpd, model, mp, b)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C06", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "lists":
        return lists(rng, m)
    if kind == "example":
        names = list(example_builders())
        model = example_builders()[names[case["i"] % len(names)]]()
        what: Any = names[case["i"] % len(names)]
        if len(model.nodes) > 9:
            m.event("example_too_large")
    elif kind == "chance":
        s = gen.rand_spec(rng, n=(2, 6))
        model, what = gen.build(rng, gen.add_latents(rng, s, 0.08)), s.describe()
    else:
        s = gen.retry(rng, gen.rand_diagram, kind=kind, n=(3, 6), agents=1 if kind == "cid" else 2, decs=(1, 2) if kind == "cid" else (1, 1),
                      utils=(1, 2), maxdom=2, max_rules=16, connected=rng.random() < 0.6, recall=rng.random() < 0.6,
                      policies=rng.choice([0.0, 0.0, 0.5, 1.0]))
        model, what = gen.build(rng, gen.add_latents(rng, s, 0.08)), s.describe()
        if kind == "macid" and rng.random() < 0.3:
            model.impute_fully_mixed_policy_profile()
            for op in ("subgame", "equilibrium") if not big(model) else ("subgame",):
                m.event("every_rule_in_place")
                do_op(rng, op, Guard(m, model, what), model)
    g = Guard(m, model, what)
    ops = [o for o in OPS if hasattr(model, "decisions") or o in ("query", "query_intervened", "query_bad", "expected_value", "paths", "scm", "sample", "draw", "copies")]
    if kind == "example":
        ops = [o for o in ops if o not in ("draw", "patterns")] if rng.random() < 0.7 else ["draw"]
        if big(model):
            ops = [o for o in ops if o in ("query", "expected_value", "structure", "recall", "reachability", "analysis", "copies")]
    elif big(model):
        ops = [o for o in ops if o not in ("optimal", "solve", "equilibrium", "quantitative", "rules")]
    for op in rng.sample(ops, min(len(ops), 6)):
        if op == "equilibrium" and rng.random() < 0.3:
            continue
        do_op(rng, op, g, model)


def big(model: Any) -> bool:
    import numpy as np

    if len(model.nodes) > 8:
        return True
    if all(model.get_cpds(v) is not None for v in model.nodes) and np.prod([len(model.model.domain[v]) for v in model.nodes], dtype=float) > 3000:
        return True
    total = 1
    for d in getattr(model, "decisions", []):
        if d not in model.model.domain or any(p not in model.model.domain for p in model.get_parents(d)):
            return False
        total *= len(model.model.domain[d]) ** int(np.prod([len(model.model.domain[p]) for p in model.get_parents(d)] or [1]))
    return total > 64


def lists(rng: random.Random, m: Any) -> None:
    """The containers a diagram is created from stay as they were under any later edit of the diagram."""
    import pycid

    nodes = ["A", "B", "C", "D", "E"]
    edges = [("A", "B"), ("B", "C"), ("A", "D"), ("D", "E")]
    kind = rng.choice(["cid", "macid", "macidbase"])
    ds, us = ["B"], ["C", "E"]
    ad, au = {0: ["B"], 1: ["D"]}, {0: ["C"], 1: ["E"]}
    held = [edges, ds, us, ad, au]
    before = copy.deepcopy(held)
    if kind == "cid":
        model = pycid.CID(edges, decisions=ds, utilities=us)
    else:
        model = (pycid.MACID if kind == "macid" else pycid.MACIDBase)(edges, agent_decisions=ad, agent_utilities=au)
    log = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["dec", "util", "chance", "remove", "edge", "copydec", "analyse"])
        v = rng.choice([n for n in nodes if n in model.nodes])
        log.append([op, v])
        a = rng.choice([0, 1]) if kind != "cid" else 0
        if op == "dec":
            model.make_decision(v, a)
        elif op == "util":
            model.make_utility(v, a)
        elif op == "chance":
            model.make_chance(v)
        elif op == "remove" and len(model.nodes) > 2:
            model.remove_node(v)
        elif op == "edge":
            if not model.has_edge("A", "E") and {"A", "E"} <= set(model.nodes):
                model.add_edge("A", "E")
        elif op == "copydec":
            model.copy().make_decision(v, a)
        else:
            model.sufficient_recall()
        m.event("answered")
        m.require(held == before, "construction-lists-changed", f"the lists a {kind} was created from were changed: {before} -> {held}", {"log": log})
    m.evaluated([kind, log])
