"""C01: every answered query equals the exact truncated factorisation."""
from __future__ import annotations

import random
from typing import Any, Dict, List

from rv import gen
from rv.common import check_query, example_builders, make_cases, rand_context, rng_of, seed_globals
from rv.hooks import query_monitor

RULE = (
    "random models (CBN, CID, MACID; connected, disconnected, isolated nodes; every mechanism style; int/str/float/bool "
    "domains in declared or inferred order) x random query sets, positive-probability contexts and interventions, each "
    "answer compared with brute-force summation of the specified tables; plus solver and analysis workloads on random "
    "and bundled models with a wrapper judging every internal query. A case is non-trivial when the query conditions "
    "or intervenes on something and the answer is not uniform by construction; distinct by model and query."
)
ASSUMPTIONS = ["contexts of probability below 1e-12 are not judged", "float tolerance 1e-7", "models of up to 8 variables"]
MIN_EVENTS = {"query_compared": 800, "bad_context_refused": 50, "nodes_outside_component": 50}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 12
    return make_cases(seed, chance=280 * k, diagram=120 * k, sparse=120 * k, solver=48 * k, example=len(example_builders()))


def drive(rng: random.Random, s: gen.Spec, model: Any, m: Any, n: int) -> None:
    net = s.net()
    for _ in range(n):
        q = rng.sample(s.nodes, rng.randint(1, min(3, len(s.nodes))))
        rest = [v for v in s.nodes if v not in q]
        iv_nodes = rng.sample(s.nodes, rng.choice([0, 0, 1, 1, 2]) if len(s.nodes) > 2 else 0)
        iv = {v: rng.choice(s.dom[v]) for v in iv_nodes}
        ctx = rand_context(rng, net.do(iv), rest, rng.choice([0, 1, 1, 2, 3]))
        if rng.random() < 0.1:
            ctx = {v: rng.choice(s.dom[v]) for v in ctx}
        done = check_query(m, model, net, q, ctx, iv if iv or rng.random() < 0.5 else None)
        if done is not None:
            m.evaluated([s.describe(), q, ctx, iv], bool(ctx or iv))
            if not all(net.ancestors([v]) & net.ancestors(q) for v in s.nodes):
                m.event("nodes_outside_component")
            if rng.random() < 0.3:  # the order things are written in must not matter
                q2 = rng.sample(q, len(q))
                check_query(m, model, net, q2, dict(reversed(list(ctx.items()))), dict(reversed(list(iv.items()))), "query")
    v = rng.choice(s.nodes)
    bad = rng.choice([77, "nope", -55, 0.25])
    if bad not in s.dom[v]:
        w = rng.choice([x for x in s.nodes if x != v] or [v])
        if w != v:
            try:
                model.query([w], {v: bad})
            except ValueError:
                m.event("bad_context_refused")
            else:
                m.violation("bad-context-accepted", f"a context with {v}={bad!r} outside {s.dom[v]} was accepted")


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C01", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind in ("chance", "sparse"):
        s = gen.rand_spec(rng, n=(2, 7), density=0.18 if kind == "sparse" else None)
        drive(rng, s, gen.build(rng, gen.add_latents(rng, s, 0.08)), m, 5)
    elif kind == "diagram":
        k = rng.choice(["cid", "macid", "macidbase"])
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.2, kind=k, n=(3, 7), agents=1 if k == "cid" else rng.choice([1, 2]), decs=(1, 2), utils=(1, 2),
            maxdom=3, max_rules=10**9, policies=1.0, connected=rng.random() < 0.7,
        )
        drive(rng, s, gen.build(rng, gen.add_latents(rng, s, 0.08)), m, 5)
    elif kind == "solver":
        two = rng.random() < 0.4
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.2, kind="macid" if two else "cid", n=(3, 6), agents=2 if two else 1, decs=(1, 1) if two else (1, 2),
            utils=(1, 2), maxdom=2, max_rules=16, connected=rng.random() < 0.7, recall=True,
        )
        model = gen.build(rng, gen.add_latents(rng, s, 0.08))
        with query_monitor(m, limit=250):
            if two:
                model.get_ne()
                model.get_spe()
            else:
                model.solve()
                model.optimal_policies()
                from pycid.analyze.value_of_control import quantitative_voc

                quantitative_voc(model, rng.choice([v for v in s.nodes if v not in s.decisions]))
        m.evaluated(["solver", s.describe()])
    else:
        names = list(example_builders())
        name = names[case["i"] % len(names)]
        model = example_builders()[name]()
        if model.get_cpds() and all(model.get_cpds(v) for v in model.nodes):
            with query_monitor(m, limit=60):
                if hasattr(model, "decisions"):
                    model.impute_fully_mixed_policy_profile()
                for v in model.nodes:
                    model.query([v], {})
                for _ in range(20):
                    q, c, i = (rng.choice(list(model.nodes)) for _ in range(3))
                    if len({q, c, i}) == 3:
                        try:
                            model.query([q], {c: rng.choice(model.model.domain[c])}, {i: rng.choice(model.model.domain[i])})
                        except ValueError:
                            m.event("example_query_refused")
            m.evaluated(["example", name])
