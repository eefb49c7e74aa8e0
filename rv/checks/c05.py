"""C05: a copy equals its original in everything observable, and neither ever shows the other's later changes."""
from __future__ import annotations

import random
from typing import Any, Callable, Dict, List

import numpy as np

from rv import gen
from rv.common import check_query, make_cases, rand_context, rng_of, seed_globals
from rv.hooks import snapshot, snapshot_diff

RULE = (
    "random models of every class (with and without policies, isolated nodes, agents with only decisions or only "
    "utilities, missing mechanisms), copied and copied again; every observable (kind, nodes, edges, agents, roles, domains, "
    "tables, queries, solutions) is compared, then a random series of changes (mechanisms, domains, edges, roles, "
    "interventions, imputed policies, node removal) is made to one of the family while monitors watch the snapshots of the "
    "others and of their behaviour under later recomputation. Distinct by model and change series."
)
ASSUMPTIONS = ["the order in which a copy lists agents without a role in both maps is not judged"]
MIN_EVENTS = {"copies_compared": 500, "changes_made": 1000, "bystanders_checked": 1500, "recomputed": 200, "structure_copies": 200}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 2 if tier == "quick" else 30
    return make_cases(seed, chance=110 * k, diagram=200 * k, imputed=70 * k, example=40)


def observe(model: Any) -> Dict[str, Any]:
    s = snapshot(model, order=False)
    s.pop("mechanisms")
    s["specified"] = sorted(model.model)
    s["tables"] = {v: canonical(model, v) for v in model.nodes}
    s["domains"] = {v: d for v, d in s["domains"].items() if v in model.nodes and model.get_cpds(v) is not None}
    for k in ("agent_decisions", "agent_utilities"):
        if k in s:
            s[k] = {a: sorted(x) for a, x in s[k].items()}
    if "agents" in s:
        s["agents"] = sorted(s["agents"], key=str)
        s["decisions"] = sorted(model.decisions)
        s["utilities"] = sorted(model.utilities)
    return s


def canonical(model: Any, v: str) -> Any:
    f = model.get_cpds(v)
    if f is None:
        return None
    vs = [v] + sorted(x for x in f.variables if x != v)
    arr = np.transpose(np.asarray(f.values), [list(f.variables).index(x) for x in vs])
    return (isinstance_domain(f), tuple(vs), tuple(tuple(f.state_names.get(x, ())) for x in vs), arr.round(12).tobytes())


def isinstance_domain(f: Any) -> bool:
    from pycid.core.cpd import DecisionDomain

    return isinstance(f, DecisionDomain)


def make(rng: random.Random, kind: str) -> Any:
    if kind == "chance":
        s = gen.rand_spec(rng, n=(2, 6))
    else:
        k = rng.choice(["cid", "macid", "macidbase"])
        s = gen.retry(rng, gen.rand_diagram, kind=k, n=(3, 6), agents=1 if k == "cid" else rng.choice([1, 2]), decs=(1, 2), utils=(1, 2),
                      maxdom=2, max_rules=16, policies=1.0 if kind == "imputed" else 0.4, connected=rng.random() < 0.8,
                      labels=(0,) if k == "cid" else rng.choice([(0, 1), ("alice", "bob"), (1, 0), ("x", 7)]))
    model = gen.build(rng, gen.add_latents(rng, s, 0.2))
    if kind == "diagram" and rng.random() < 0.4 and s.kind != "cid":
        # an agent with only a decision, or only a utility, or nothing
        a = rng.choice(list(model.agents))
        which = rng.choice(["D", "U", "DU"])
        for v in list(model.agent_decisions.get(a, []) if "D" in which else []) + list(model.agent_utilities.get(a, []) if "U" in which else []):
            model.make_chance(v)
    if kind == "diagram" and rng.random() < 0.25:
        v = rng.choice(s.nodes)
        model.remove_cpds(v)
    return s, model


CHANGES: Dict[str, Callable[..., Any]] = {}


def change(f: Callable[..., Any]) -> Callable[..., Any]:
    CHANGES[f.__name__] = f
    return f


@change
def new_mechanism(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    v = rng.choice([n for n in x.nodes])
    dom = rng.choice([[0, 1], [5, 6, 7], [-1, 2]])
    d = dict(zip(dom, gen.rand_dist(rng, len(dom), "free")))
    safe = all(is_total(x, c) for c in x.get_children(v))
    if not safe:
        dom = list(x.model.domain.get(v, dom))
        d = dict(zip(dom, gen.rand_dist(rng, len(dom), "free")))
        from pycid.core.cpd import ConstantCPD

        if not all(p in x.model.domain for p in x.get_parents(v)):
            return None
        x.add_cpds(ConstantCPD(v, d, x, domain=dom))
        return ["mechanism", v]
    x.add_cpds(**{v: d})
    return ["mechanism+domain", v]


def is_total(x: Any, c: str) -> bool:
    """Whether c's mechanism answers for any parent outcome (constants do)."""
    from pycid.core.cpd import ConstantCPD

    return c not in x.model or isinstance(x.model[c], (dict, list, ConstantCPD))


@change
def add_edge(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    import networkx as nx

    pairs = [(a, b) for a in x.nodes for b in x.nodes if a != b and not x.has_edge(a, b) and a not in nx.descendants(x, b)]
    pairs = [(a, b) for a, b in pairs if is_total(x, b)]
    if not pairs:
        return None
    a, b = rng.choice(pairs)
    x.add_edge(a, b)
    return ["add_edge", a, b]


@change
def remove_edge(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    pairs = [(a, b) for a, b in x.edges if is_total(x, b)]
    if not pairs:
        return None
    a, b = rng.choice(pairs)
    x.remove_edge(a, b)
    return ["remove_edge", a, b]


@change
def roles(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    if not hasattr(x, "make_decision"):
        return None
    v = rng.choice(list(x.nodes))
    f = rng.choice(["make_decision", "make_utility", "make_chance"])
    if f == "make_chance":
        x.make_chance(v)
    else:
        getattr(x, f)(v, rng.choice(list(x.agents) + ["new"]) if type(x).__name__ != "CID" else 0)
    return [f, v]


@change
def intervene(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    vs = [v for v in x.nodes if x.get_cpds(v) is not None]
    if not vs:
        return None
    v = rng.choice(vs)
    o = rng.choice(list(x.model.domain[v]))
    x.intervene({v: o})
    return ["intervene", v, o]


@change
def impute(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    if not hasattr(x, "decisions"):
        return None
    ds = [d for d in x.decisions if x.get_cpds(d) is not None]
    if not ds:
        return None
    d = rng.choice(ds)
    x.impute_random_decision(d)
    return ["impute", d]


@change
def remove_cpd(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    vs = list(x.model)
    if not vs:
        return None
    v = rng.choice(vs)
    x.remove_cpds(v)
    return ["remove_cpds", v]


@change
def remove_node(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    vs = [v for v in x.nodes if x.get_cpds(v) is not None and not list(x.get_children(v))]
    if len(x.nodes) < 3 or not vs:
        return None
    v = rng.choice(vs)
    x.remove_node(v)
    return ["remove_node", v]


@change
def strip_policies(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    if not hasattr(x, "remove_all_decision_rules") or not all(x.get_cpds(d) is not None for d in x.decisions):
        return None
    x.remove_all_decision_rules()
    return ["remove_all_decision_rules"]


@change
def add_node(rng: random.Random, s: gen.Spec, x: Any) -> Any:
    x.add_node("brand_new")
    x.add_cpds(brand_new={0: 0.5, 1: 0.5})
    return ["add_node"]


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C05", case)
    seed_globals(rng)
    if case["kind"] == "example":
        from rv.common import example_builders

        names = list(example_builders())
        model = example_builders()[names[case["i"] % len(names)]]()
        s = None
    else:
        s, model = make(rng, case["kind"])
        if case["kind"] == "imputed" and s.kind == "cid":
            how = rng.choice(["random", "optimal", "condexp", "none"])
            if how == "random":
                model.impute_random_policy()
            elif how == "optimal":
                model.remove_all_decision_rules()
                model.impute_optimal_policy()
            elif how == "condexp":
                d = s.decisions[0]
                below = s.diagram().desc(d)
                # a decision with numeric target upstream of it
                ys = [v for v in s.nodes if v not in below and v != d and all(isinstance(o, (int, float)) for o in s.dom[v])]
                if ys and not any(not is_total(model, c) for c in model.get_children(d)):
                    model.impute_conditional_expectation_decision(d, rng.choice(ys))
    first = observe(model)
    family = [model]
    log: List[Any] = []
    for _ in range(rng.choice([1, 2, 3])):
        src = rng.choice(family)
        c = src.copy()
        m.event("copies_compared")
        now = observe(c)
        diff = [d for d in snapshot_diff(observe(src), now)]
        m.require(diff == [], "copy-differs", f"a copy differs from its original in {diff}", lambda: {"original": repr(observe(src))[:3000], "copy": repr(now)[:3000]})
        m.require(type(c) is type(src), "copy-kind", f"a copy of a {type(src).__name__} is a {type(c).__name__}")
        m.require(c.model.cbn is c, "copy-bound", "a copy's mechanisms are bound to another model") if hasattr(c.model, "cbn") else None
        family.append(c)
    m.require(snapshot_diff(first, observe(model)) == [], "copying-changed-original", "making copies changed the original")
    bare = rng.choice(family).copy_without_cpds()
    m.event("structure_copies")
    b = observe(bare)
    for k in first:
        if k not in ("tables", "domains", "specified", "labels"):
            m.require(b[k] == first[k], "structure-copy-differs", f"the copy without mechanisms differs in {k}: {b[k]} instead of {first[k]}")
    m.require(not list(bare.model) and not bare.get_cpds(), "structure-copy-has-mechanisms", "the copy without mechanisms has mechanisms")
    if s is not None and case["kind"] == "chance":
        net = s.net()
        q = rng.sample(s.nodes, 1)
        ctx = rand_context(rng, net, [v for v in s.nodes if v not in q], rng.choice([0, 1, 2]))
        for x in family:
            check_query(m, x, net, q, ctx, None)
    family.append(bare)
    states = [observe(x) for x in family]
    m.evaluated([case, [repr(type(x)) for x in family]])
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(family) - 1)
        x = family[i]
        name = rng.choice(sorted(CHANGES))
        try:
            done = CHANGES[name](rng, s, x)
        except Exception as e:  # noqa: BLE001
            # a change that is refused is judged elsewhere; here only whether it leaks into the others
            m.event("change_refused")
            done = [name, "refused", type(e).__name__]
        if done is None:
            continue
        m.event("changes_made")
        log.append([i] + done)
        states[i] = observe(x)
        for j, y in enumerate(family):
            if j != i:
                m.event("bystanders_checked")
                diff = snapshot_diff(states[j], observe(y))
                m.require(diff == [], "change-leaked", f"changing member {i} ({done}) changed member {j}: {diff}", lambda: {"log": log})
    # later recomputation in each member uses its own mechanisms and domains only
    for j, y in enumerate(family[:-1]):
        if any(e[0] == j for e in log):
            continue
        for v in list(y.nodes):
            if v in y.model and y.get_cpds(v) is not None:
                y.model[v] = y.model[v]
        m.event("recomputed")
        diff = snapshot_diff(states[j], observe(y))
        m.require(diff == [], "recomputation-leaked", f"re-evaluating member {j}'s own mechanisms changed it: {diff}", lambda: {"log": log})
        c = y.copy()
        diff = snapshot_diff(states[j], observe(c))
        m.require(diff == [], "late-copy-differs", f"a copy of member {j} taken after the others changed differs: {diff}", lambda: {"log": log})
