"""C08: expected values and utilities are exact, in the order asked for."""
from __future__ import annotations

import random
from typing import Any, Dict, List

from rv import gen
from rv.common import example_builders, make_cases, mutually_connected, rand_context, rng_of, seed_globals

RULE = (
    "random models whose variables have numeric domains (negative, fractional, unsorted, boolean) in CBNs, CIDs and MACIDs; "
    "expected values of one to four variables in every order, given random contexts and interventions, and every agent's "
    "expected utility (agents with no, one or many utilities, connected or not) against exact brute-force expectations; "
    "bundled examples against the expectation read off their own tables. Distinct by model and question."
)
ASSUMPTIONS = ["contexts of probability below 1e-12 are not judged", "float tolerance 1e-7 relative"]
MIN_EVENTS = {"expectations_compared": 700, "multi_variable": 250, "utilities_compared": 500, "agents_without_utility": 10, "split_utilities": 30}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, chance=140 * k, diagram=220 * k, example=24 if tier == "quick" else 100)


def close(a: float, b: float) -> bool:
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def ask_values(rng: random.Random, m: Any, model: Any, net: Any, numeric: List[str], what: Any) -> None:
    nodes = list(net.dom)
    q = rng.sample(numeric, min(len(numeric), rng.choice([1, 2, 2, 3, 4])))
    iv = {v: rng.choice(net.dom[v]) for v in rng.sample(nodes, rng.choice([0, 0, 1, 2]) if len(nodes) > 2 else 0)}
    n2 = net.do(iv)
    ctx = rand_context(rng, n2, nodes if rng.random() < 0.25 else [v for v in nodes if v not in q], rng.choice([0, 1, 1, 2]))
    if n2.prob([], ctx) is None or not mutually_connected(n2, q):
        return
    want = [n2.expect(v, ctx) for v in q]
    m.event("variable_in_context", int(bool(set(q) & set(ctx))))
    arg = rng.choice([list, tuple, lambda x: dict.fromkeys(x)])(q)
    if iv:
        got = rng.choice([lambda: model.expected_value(arg, dict(ctx), dict(iv)), lambda: model.expected_value(arg, dict(ctx), intervention=dict(iv))])()
    else:
        got = model.expected_value(arg, dict(ctx))
    m.event("expectations_compared")
    if len(q) > 1:
        m.event("multi_variable")
    m.evaluated([what, q, ctx, iv])
    m.require(len(got) == len(q), "wrong-number-of-values", f"{len(got)} values for {len(q)} variables")
    m.require(
        all(close(float(a), b) for a, b in zip(got, want)), "wrong-expectation",
        f"E[{q} | {ctx}, do({iv})] = {list(map(float, got))}, expected {want}",
        lambda: {"domains": {v: net.dom[v] for v in q}, "edges": [[p, v] for v in net.dom for p in net.parents[v]]},
    )


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C08", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = list(example_builders())
        name = names[case["i"] % len(names)]
        model = example_builders()[name]()
        if hasattr(model, "decisions"):
            if not all(model.get_cpds(v) is not None for v in model.nodes):
                return
            model.impute_fully_mixed_policy_profile()
        if len(model.nodes) > 12 or not all(model.get_cpds(v) is not None for v in model.nodes):
            m.event("example_skipped")
            return
        net = gen.net_from_model(model)
        numeric = [v for v in net.dom if all(isinstance(o, (int, float)) for o in net.dom[v])]
        for _ in range(4 if numeric else 0):
            ask_values(rng, m, model, net, numeric, name)
        for a in getattr(model, "agents", []):
            us = model.agent_utilities[a]
            if all(u in numeric for u in us):
                m.event("utilities_compared")
                got, want = float(model.expected_utility({}, agent=a)), sum(net.expect(u) for u in us)
                m.require(close(got, want), "wrong-utility", f"expected utility of {a!r} in {name}: {got}, expected {want}")
        return
    if kind == "chance":
        s = gen.rand_spec(rng, n=(2, 6), numeric_all=rng.random() < 0.6, maxdom=3)
    else:
        k = rng.choice(["cid", "macid", "macidbase"])
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.2, kind=k, n=(4, 8), agents=1 if k == "cid" else rng.choice([1, 2, 3]), decs=(0, 1), utils=(1, 3),
            maxdom=3, max_rules=10**9, policies=1.0, connected=rng.random() < 0.4, util_leaf=rng.random() < 0.7,
            labels=(0,) if k == "cid" else rng.choice([(0, 1, 2), (2, 0, 1), ("ann", "bob", "cyd")]),
        )
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    net = s.net()
    numeric = [v for v in s.nodes if all(isinstance(o, (int, float)) for o in s.dom[v])]
    if numeric:
        for _ in range(5):
            ask_values(rng, m, model, net, numeric, s.describe())
    if kind == "chance":
        return
    if rng.random() < 0.2 and s.kind != "cid":
        a = rng.choice(list(s.agents))
        for u in list(s.agents[a]["U"]):
            model.make_chance(u)
            s.agents[a]["U"].remove(u)
    g = s.diagram()
    for a in s.agents:
        us = s.agents[a]["U"]
        for _ in range(2):
            iv = {v: rng.choice(net.dom[v]) for v in rng.sample(s.nodes, rng.choice([0, 0, 1]))}
            n2 = net.do(iv)
            ctx = rand_context(rng, n2, s.nodes, rng.choice([0, 0, 1, 2]))
            if rng.random() < 0.7:
                ctx = {v: o for v, o in ctx.items() if v not in us}
            if n2.prob([], ctx) is None:
                continue
            want = sum(n2.expect(u, ctx) for u in us)
            if iv:
                got = model.expected_utility(dict(ctx), dict(iv), a) if rng.random() < 0.5 else model.expected_utility(dict(ctx), intervention=dict(iv), agent=a)
            elif s.kind == "cid" and rng.random() < 0.5:
                got = model.expected_utility(dict(ctx))
            else:
                got = model.expected_utility(dict(ctx), agent=a)
            m.event("utilities_compared")
            if not us:
                m.event("agents_without_utility")
            if len(us) > 1 and not all(g.connected(us[0], u) for u in us):
                m.event("split_utilities")
            m.evaluated([s.describe(), "EU", str(a), ctx, iv])
            m.require(
                close(float(got), want), "wrong-utility", f"expected utility of {a!r} given {ctx}, do({iv}) is {float(got)}, expected {want}",
                lambda: {"utilities": us, "agents": {str(k): v for k, v in s.agents.items()}, "edges": s.edges},
            )
