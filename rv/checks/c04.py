"""C04: interventions fix values, cut incoming edges and leave the rest; effects are differences of interventional expectations."""
from __future__ import annotations

import random
from typing import Any, Dict, List

import numpy as np

from rv import gen
from rv.common import check_query, make_cases, rand_context, rng_of, seed_globals
from rv.hooks import snapshot, snapshot_diff
from rv.monitor import say
from rv.ref import Net

RULE = (
    "random parameterised models (CBN, CID, MACID; every mechanism style, domains in any declared order) x random "
    "intervention sets, applied in place at once, one variable at a time in a random order, and inside queries; structure, "
    "roles, domains and every table are compared with the truncated model computed by the harness, and queries with brute "
    "force; imputed policies must keep their table; total and introduced effects are compared with differences of exact "
    "interventional expectations. Non-trivial: the intervened variables have parents or children; distinct by model and set."
)
ASSUMPTIONS = ["interventions use outcomes inside the variable's domain", "tolerance 1e-7"]
MIN_EVENTS = {"in_place": 400, "query_compared": 400, "effects_compared": 200, "introduced_compared": 60, "introduced_negative": 15, "policies_kept": 60}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 18
    return make_cases(seed, chance=180 * k, diagram=140 * k, effect=140 * k, policy=80 * k)


def check_state(m: Any, model: Any, s: gen.Spec, net: Net, iv: Dict[str, Any], edges0: List[Any], roles: Dict[str, Any], what: str) -> None:
    want = {(a, b) for a, b in edges0 if b not in iv}
    m.require(set(model.edges) == want, "edges", f"{what} do({iv}): edges {sorted(set(model.edges) ^ want)} differ")
    m.require(sorted(model.nodes) == sorted(s.nodes), "nodes", f"{what} do({iv}): nodes changed")
    if roles:
        now = roles_of(model)
        m.require(now == roles, "roles", f"{what} do({iv}): roles {roles} became {now}")
    n2 = net.do(iv)
    for v in s.nodes:
        live = list(model.model.domain[v])
        m.require(live == s.dom[v], "domain", f"{what} do({iv}): domain of {v} is {live}, was {s.dom[v]}")
        try:
            t = gen.cpd_to_table(model, v, n2.parents[v], s.dom)
        except ValueError as e:
            m.require(False, "table-shape", f"{what} do({iv}): {say(e)}")
        m.require(np.allclose(t, n2.tables[v], atol=1e-9), "table", f"{what} do({iv}): table of {v} is not that of the truncated model",
                  lambda: {"got": t, "want": n2.tables[v], "spec": s.describe()})


def roles_of(model: Any) -> Dict[str, Any]:
    if not hasattr(model, "agent_decisions"):
        return {}
    return {
        "D": {a: sorted(x) for a, x in model.agent_decisions.items()},
        "U": {a: sorted(x) for a, x in model.agent_utilities.items()},
        "da": dict(model.decision_agent),
        "ua": dict(model.utility_agent),
    }


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C04", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "effect":
        return effects(rng, m)
    if kind == "policy":
        return policies(rng, m)
    if kind == "chance":
        s = gen.rand_spec(rng, n=(2, 7))
    else:
        k = rng.choice(["cid", "macid", "macidbase"])
        s = gen.retry(rng, gen.rand_diagram, longer=0.2, kind=k, n=(3, 7), agents=1 if k == "cid" else rng.choice([1, 2]), decs=(1, 2),
                      utils=(1, 2), maxdom=3, max_rules=10**9, policies=0.6, connected=rng.random() < 0.7)
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    net = s.net()
    roles, edges0 = roles_of(model), list(model.edges)
    for _ in range(3):
        nodes = rng.sample(s.nodes, rng.randint(1, min(3, len(s.nodes))))
        iv = {v: rng.choice(s.dom[v]) for v in nodes}
        m.evaluated([s.describe(), iv], any(a in iv or b in iv for a, b in s.edges))
        one = model.copy()
        one.intervene(dict(iv))
        m.event("in_place")
        check_state(m, one, s, net, iv, edges0, roles, "in place,")
        two = model.copy()
        for v in rng.sample(nodes, len(nodes)):
            two.intervene({v: iv[v]})
        check_state(m, two, s, net, iv, edges0, roles, "one at a time,")
        if rng.random() < 0.4:  # a second intervention on the same variable replaces the first
            v = rng.choice(nodes)
            iv2 = {**iv, v: rng.choice(s.dom[v])}
            two.intervene({v: iv2[v]})
            check_state(m, two, s, net, iv2, edges0, roles, "again,")
        free = [d for d in s.nopolicy if d not in iv]
        q = rng.sample(s.nodes, rng.randint(1, 2))
        ctx = rand_context(rng, net.do(iv), [v for v in s.nodes if v not in q], rng.choice([0, 0, 1, 2]))
        if not free:
            check_query(m, one, net.do(iv), q, ctx, None)
            before = snapshot(model)
            check_query(m, model, net, q, ctx, iv)
            m.expect(snapshot_diff(before, snapshot(model)) == [], "query-changed-model", "a query with an intervention changed the model")


def policies(rng: random.Random, m: Any) -> None:
    """Policies imputed before an intervention keep their tables after it."""
    s = gen.retry(rng, gen.rand_diagram, longer=0.2, kind="cid", n=(3, 6), decs=(1, 2), utils=(1, 2), maxdom=2, max_rules=16, recall=True)
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    how = rng.choice(["optimal", "random", "rule"])
    if how == "optimal":
        model.impute_optimal_policy()
    elif how == "random":
        model.impute_random_policy()
    else:
        for d in s.decisions:
            rules = list(model.pure_decision_rules(d))
            model.add_cpds(rng.choice(rules))
    pol = {d: gen.cpd_to_table(model, d, s.parents(d), s.dom) for d in s.decisions}
    net = s.net().with_policy(pol)
    v = rng.choice(s.nodes)
    iv = {v: rng.choice(s.dom[v])}
    roles, edges0 = roles_of(model), list(model.edges)
    m.evaluated([how, s.describe(), iv])
    m.event("policies_kept")
    work = model.copy() if rng.random() < 0.5 else model
    work.intervene(iv)
    check_state(m, work, s, net, iv, edges0, roles, f"after imputing ({how}),")


def effects(rng: random.Random, m: Any) -> None:
    from pycid.analyze.effects import introduced_total_effect, total_effect

    diag = rng.random() < 0.7
    if diag:
        s = gen.retry(rng, gen.rand_diagram, longer=0.2, kind="cid", n=(3, 6), decs=(1, 1), utils=(1, 2), maxdom=3, max_rules=10**9, policies=1.0,
                      connected=rng.random() < 0.8)
    else:
        s = gen.rand_spec(rng, n=(2, 6), numeric_all=True)
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    net = s.net()
    numeric = [v for v in s.nodes if all(isinstance(o, (int, float)) and not isinstance(o, bool) for o in s.dom[v])]
    if not numeric:
        return
    for _ in range(4):
        a = rng.choice(s.nodes)
        x = rng.choice(numeric)
        dflt = set(s.dom[a]) >= {0, 1} and rng.random() < 0.5
        a0, a1 = (0, 1) if dflt else (rng.choice(s.dom[a]), rng.choice(s.dom[a]))

        def te(y: str) -> float:
            return net.do({a: a1}).expect(y) - net.do({a: a0}).expect(y)

        want = te(x)
        got = total_effect(model, a, x) if dflt else total_effect(model, a, x, a0, a1)
        m.evaluated(["te", s.describe(), a, x, a0, a1], a != x)
        m.event("effects_compared")
        m.expect(abs(got - want) < 1e-7, "total-effect", f"total effect of {a} ({a0}->{a1}) on {x} is {got}, exactly {want}", lambda: s.describe())
        d, y = rng.choice(numeric), rng.choice(numeric)
        for adapt in (True, False):
            ted, tey = te(d), te(y)
            if abs(tey) < 1e-9 and abs(ted) > 1e-9 and adapt:
                m.event("introduced_sign_undecided")
                continue
            want = -ted + tey if (tey < 0 and adapt) else ted - tey
            if rng.random() < 0.5 and adapt:
                got = introduced_total_effect(model, a, d, y, a0, a1)
            else:
                got = introduced_total_effect(model, a, d, y, a0=a0, a1=a1, adapt_marginalized=adapt)
            m.event("introduced_compared")
            if tey < -1e-9 and adapt:
                m.event("introduced_negative")
            m.expect(abs(got - want) < 1e-7, "introduced-effect", f"introduced effect of {a} on {d} vs {y} (adapt={adapt}) is {got}, exactly {want}", lambda: s.describe())
