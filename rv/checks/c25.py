"""C25: imputed random, expectation-matching and removed policies are what they claim."""
from __future__ import annotations

import itertools
from typing import Any, Dict, List, Optional

import numpy as np

from rv import gen
from rv.common import install_policies, make_cases, random_policies, rng_of, seed_globals
from rv.ref import uniform

RULE = (
    "histories of 3 to 12 operations (uniform rule for one decision, for all, fully mixed profile, random and pure rules installed, all "
    "rules removed, copying, interventions on copies) on single- and multi-agent diagrams with decision domains in any order and of any type, "
    "every table of the model compared with a shadow after each operation, policy-dependent queries answered or refused as the shadow "
    "says, re-solved after removal; and expectation-matching decisions over networks with hidden, observed, irrelevant and impossible "
    "contexts. Distinct by history."
)
ASSUMPTIONS = ["the target of an expectation-matching decision is numeric and not influenced by the decision"]
MIN_EVENTS = {
    "steps": 900, "uniform_one": 120, "uniform_all": 150, "removed": 120, "tables_compared": 5000, "answered": 350, "refused": 300, "resolved": 35, "unknown_domain_refused": 20,
    "expectation": 120, "contexts_compared": 350, "target_observed": 15, "impossible_contexts": 15, "irrelevant_parents": 12, "policy_in_target": 8, "later_change_ignored": 25,
}
TECHNIQUE = "runtime monitor: shadow policy state over operation histories, reference expectations"


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 22
    return make_cases(seed, history=240 * k, resolve=50 * k, expectation=160 * k, nodomain=25)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C25", case)
    seed_globals(rng)
    {"history": history, "resolve": resolve, "expectation": expectation, "nodomain": nodomain}[case["kind"]](rng, m)


def make(rng: Any, **kw: Any) -> gen.Spec:
    kind = rng.choice(["cid", "macid", "macidbase"])
    args: Dict[str, Any] = dict(
        kind=kind, n=(3, 7), agents=1 if kind == "cid" else rng.choice([1, 2, 3]), labels=(0, 1, 2) if kind == "cid" or rng.random() < 0.5 else ("x", "Y", "z"), decs=(1, 2),
        maxdom=3, max_rules=10**9, util_leaf=rng.random() < 0.7, connected=rng.random() < 0.7, tries=3000,
    )
    args.update(kw)
    s = gen.retry(rng, gen.rand_diagram, **args)
    for d in s.decisions:
        if rng.random() < 0.2:
            s.style[d] = "domobj"
    return s


def history(rng: Any, m: Any) -> None:
    from pycid.core.cpd import DecisionDomain

    s = make(rng)
    if any(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1]) > 60 for d in s.decisions):
        s = make(rng, max_in=2)
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    net0 = s.net()
    rule: Dict[str, Optional[np.ndarray]] = {d: None for d in s.decisions}
    log: List[Any] = []
    wit = lambda: {"model": s.describe(), "history": log}  # noqa: E731
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(["one", "one", "all", "all", "remove", "remove", "install", "pure", "copy", "intervene_copy"])
        log.append([op])
        if op == "one":
            d = rng.choice(s.decisions)
            log[-1].append(d)
            model.impute_random_decision(d)
            rule[d] = uniform(net0, d)
            m.event("uniform_one")
        elif op == "all":
            if hasattr(model, "impute_random_policy") and rng.random() < 0.6:
                model.impute_random_policy()
            else:
                model.impute_fully_mixed_policy_profile()
            rule = {d: uniform(net0, d) for d in s.decisions}
            m.event("uniform_all")
        elif op == "remove":
            model.remove_all_decision_rules()
            rule = {d: None for d in s.decisions}
            m.event("removed")
        elif op in ("install", "pure"):
            ds = rng.sample(s.decisions, rng.randint(1, len(s.decisions)))
            log[-1] += ds
            pol = random_policies(rng, s, ds, "free" if op == "install" else "det")
            install_policies(rng, s, model, pol)
            rule.update(pol)
        elif op == "copy":
            model = model.copy()
        else:
            v = rng.choice(s.nodes)
            model.copy().intervene({v: rng.choice(s.dom[v])})
        m.event("steps")
        for v in s.nodes:
            f = model.get_cpds(v)
            m.require(f is not None and list(model.model.domain[v]) == list(s.dom[v]), "domain-changed", f"after {log[-1]} the domain of {v} is {model.model.domain.get(v)}, was {s.dom[v]}", wit)
            if v in rule and rule[v] is None:
                m.require(isinstance(f, DecisionDomain), "rule-left", f"after {log[-1]} decision {v} still has a rule", wit)
                continue
            m.event("tables_compared")
            m.require(not isinstance(f, DecisionDomain), "rule-missing", f"after {log[-1]} {v} has no mechanism but a domain", wit)
            want = rule[v] if v in rule else s.tables[v]
            t = gen.factor_table(f, v, s.parents(v), s.dom)
            m.require(bool(np.allclose(t, want, atol=1e-8)), "wrong-table", f"after {log[-1]} the table of {v} is {t.tolist()}, expected {np.asarray(want).tolist()}", wit)
        d = rng.choice(s.decisions)
        net = net0.with_policy({x: t for x, t in rule.items() if t is not None})
        if rule[d] is None:
            try:
                model.query([d], {})
                m.require(False, "policy-free-question-answered", f"after {log[-1]} P({d}) is answered without a rule", wit)
            except ValueError:
                m.event("refused")
        elif all(rule[e] is not None for e in s.decisions if e in net.ancestors([d])):
            got = gen.factor_dict(model.query([d], {}))
            m.event("answered")
            m.require(gen.same_dist(got, gen.ref_dict(net, [d], net.prob([d], {})), 1e-7), "wrong-marginal", f"after {log[-1]} P({d}) = {got}", wit)
    m.evaluated([s.describe(), log])


def resolve(rng: Any, m: Any) -> None:
    """Removing the rules returns the diagram to what it was: it solves to the same result."""
    kind = rng.choice(["cid", "macid"])
    s = make(rng, kind=kind, n=(3, 5), agents=1 if kind == "cid" else 2, labels=(0, 1), maxdom=2, max_in=2, max_rules=16, recall=True, decs=(1, 2) if kind == "cid" else (1, 1), util_leaf=True,
             modes=("free", "free", "coarse", "det") if kind == "cid" else ("det",))  # rounding may break ties in gambit's exact arithmetic
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    fresh = gen.build(rng, gen.add_latents(rng, s, 0.08))

    def solution(mod: Any) -> Any:
        if kind == "cid":
            sets = [{c.variable: gen.factor_table(c, c.variable, s.parents(c.variable), s.dom).tobytes() for c in p} for p in mod.optimal_policies()]
        else:
            sets = [{c.variable: gen.factor_table(c, c.variable, s.parents(c.variable), s.dom).round(6).tobytes() for c in p} for p in mod.get_ne(solver="enumpure")]
        return sorted(repr(sorted(x.items())) for x in sets)

    first = solution(fresh)
    m.evaluated(["resolve", s.describe()])
    for _ in range(2):
        k = rng.randrange(4)
        if k == 0:
            model.impute_fully_mixed_policy_profile()
        elif k == 1:
            install_policies(rng, s, model, random_policies(rng, s, s.decisions, "det"))
        elif k == 2 and kind == "cid":
            model.impute_optimal_policy()
        else:
            model.impute_random_decision(rng.choice(s.decisions))
        model.remove_all_decision_rules()
        m.event("resolved")
        now = solution(model)
        m.require(now == first, "resolved-differently", f"after removing all rules the diagram has {len(now)} solutions, before {len(first)}", s.describe)
        try:
            model.expected_utility({}, agent=next(iter(s.agents)))
            if any(s.diagram().own_utils(d) for d in s.agents[next(iter(s.agents))]["D"]):
                m.require(False, "policy-free-question-answered", "the expected utility is answered without rules", s.describe)
        except ValueError:
            m.event("refused")


def expectation(rng: Any, m: Any) -> None:
    """decision := E[target | decision's parents]"""
    import pycid

    s = gen.rand_spec(rng, n=(2, 5), numeric_all=True, connected=rng.random() < 0.8, modes=rng.choice([("free",), ("det", "free"), ("sparse", "free"), ("coarse", "det")]), max_in=2)
    y = rng.choice(s.nodes)
    pa = rng.sample(s.nodes, min(len(s.nodes), rng.choice([0, 1, 1, 2, 2, 3])))
    chance_decision = rng.random() < 0.25
    agents = {"D": ["Dec"], "U": ["Ut"]}
    pool = [v for v in s.nodes if v != y]
    other = rng.choice(pool) if chance_decision and pool else None
    if other:
        agents["D"].append(other)
    edges = list(s.edges) + [(p, "Dec") for p in pa] + [("Dec", "Ut"), (y, "Ut")]
    rng.shuffle(edges)
    cls = rng.choice(["cid", "macid"])
    model = pycid.CID(edges, decisions=agents["D"], utilities=agents["U"]) if cls == "cid" else pycid.MACID(edges, agent_decisions={0: agents["D"]}, agent_utilities={0: agents["U"]})
    model.add_nodes_from([v for v in s.nodes if v not in model.nodes])
    if other:
        s.style[other] = "tab"
        m.event("policy_in_target", int(other in s.net().ancestors([y]) or any(p == other for p in pa)))
    gen.build(rng, s, m=model)
    model.add_cpds(Dec=[0, 1], Ut=eval(f"lambda Dec, {y}: -(Dec - {y}) ** 2") if y.isidentifier() else (lambda **pv: -((pv["Dec"] - pv[y]) ** 2)))
    net = s.net()
    wit = lambda: {"model": s.describe(), "decision parents": pa, "target": y}  # noqa: E731
    before = {v: gen.cpd_to_table(model, v, s.parents(v), s.dom) for v in s.nodes}
    model.impute_conditional_expectation_decision("Dec", y)
    m.event("expectation")
    m.event("target_observed", int(y in pa))
    m.evaluated(["expectation", s.describe(), sorted(pa), y])
    if rng.random() < 0.4:
        # a rule is fixed when it is imputed: later changes elsewhere do not alter it
        v = rng.choice(s.nodes)
        if rng.random() < 0.5:
            model = model.copy()
        after = model.copy()
        after.intervene({v: rng.choice(s.dom[v])})
        m.event("later_change_ignored")
        rule(m, after, net, pa, y, wit, v)
    rule(m, model, net, pa, y, wit, None)
    for v in s.nodes:
        t = gen.cpd_to_table(model, v, s.parents(v), s.dom)
        m.event("tables_compared")
        m.require(bool(np.allclose(t, before[v], atol=1e-9)), "other-table-changed", f"imputing Dec changed the table of {v}", wit)


def rule(m: Any, model: Any, net: Any, pa: List[str], y: str, wit: Any, changed: Optional[str]) -> None:
    f = model.get_cpds("Dec")
    vs = list(f.variables)
    m.require(set(vs) == set(pa) | {"Dec"}, "decision-parents", f"the rule of Dec is over {vs}, its parents are {pa}", wit)
    vals = np.asarray(f.values)
    doms = {p: list(f.state_names[p]) for p in pa}
    relevant = False
    seen = set()
    for combo in itertools.product(*[net.dom[p] for p in pa]):
        ctx = dict(zip(pa, combo))
        want = net.expect(y, ctx)
        if any(ctx[p] not in doms[p] for p in pa):
            continue
        at = tuple(slice(None) if x == "Dec" else doms[x].index(ctx[x]) for x in vs)
        dist = dict(zip(f.state_names["Dec"], vals[at]))
        m.require(abs(sum(dist.values()) - 1) < 1e-9 and max(dist.values()) > 1 - 1e-9, "not-deterministic", f"at {ctx} the decision is {dist}", wit)
        if want is None:
            m.event("impossible_contexts")
            continue
        m.event("contexts_compared")
        seen.add(round(want, 9))
        got = max(dist, key=lambda o: dist[o])
        m.require(abs(float(got) - want) < 1e-7, "wrong-expectation", f"at {ctx} the decision is {got}, E[{y}|{ctx}] = {want}" + (f" (after an intervention on {changed})" if changed else ""), wit)
    m.event("irrelevant_parents", int(bool(pa) and len(seen) == 1))
    del relevant


def nodomain(rng: Any, m: Any) -> None:
    s = make(rng)
    model = gen.make_structure(gen.add_latents(rng, s, 0.08))
    for f in [lambda: model.impute_random_decision(rng.choice(s.decisions)), model.impute_fully_mixed_policy_profile]:
        try:
            f()
            m.require(False, "imputed-without-domain", "a random rule was imputed to a decision without a domain", s.describe)
        except ValueError:
            m.event("unknown_domain_refused")
    m.evaluated(["nodomain", s.edges])
