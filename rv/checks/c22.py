"""C22: roles, agents and node removal are tracked consistently through any history."""
from __future__ import annotations

import copy
from typing import Any, Dict, List

import numpy as np

from rv import gen
from rv.common import make_cases, rng_of, seed_globals
from rv.ref import Diagram

RULE = (
    "histories of 6 to 30 operations (turn into decision, utility or chance node of old and new agents, repeat a role, add and remove "
    "nodes and edges, replace mechanisms, copy and continue on either copy, unknown nodes, turning cycles away) on diagrams of every "
    "class with and without mechanisms; after each operation every view of roles, agents, edges and mechanisms is compared with a "
    "shadow state machine, and at the end recall and relevance with the reference on that state. Distinct by history."
)
ASSUMPTIONS = ["an agent all of whose nodes lost their role may stay listed", "the order within an agent's list is not judged"]
MIN_EVENTS = {
    "steps": 5000, "make_decision": 700, "make_utility": 700, "make_chance": 400, "role_kept": 120, "role_moved_between_agents": 150, "decision_to_utility": 80, "utility_to_decision": 80,
    "new_agent": 250, "remove_node": 350, "removed_with_role": 100, "unknown_refused": 250, "copies": 200, "mechanisms_kept": 1500, "recall_compared": 200, "relevance_compared": 300, "cycle_refused": 30,
}
TECHNIQUE = "runtime monitor: shadow state machine over operation histories"


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, structure=400 * k, model=300 * k, big=100 * k)


class Shadow:
    def __init__(self, nodes: List[str], edges: List[Any], agents: Dict[Any, Dict[str, List[str]]]):
        self.nodes = set(nodes)
        self.edges = set(map(tuple, edges))
        self.role = {n: (k, a) for a, x in agents.items() for k in "DU" for n in x[k]}
        self.known = set(agents)
        self.tables: Dict[str, Any] = {}

    def drop(self, v: str) -> None:
        self.nodes.discard(v)
        self.edges = {e for e in self.edges if v not in e}
        self.role.pop(v, None)

    def diagram(self) -> Diagram:
        ag: Dict[Any, Dict[str, List[str]]] = {a: {"D": [], "U": []} for a in self.known}
        for n, (k, a) in self.role.items():
            ag[a][k].append(n)
        return Diagram(sorted(self.nodes), sorted(self.edges), ag)


def table(model: Any, v: str) -> Any:
    c = model.get_cpds(v)
    if c is None:
        return None
    vs = list(c.variables)
    return type(c).__name__, tuple(vs), np.asarray(c.values).round(12).tobytes(), repr(model.model.domain.get(v))


def check(m: Any, model: Any, s: Shadow, what: Any, wit: Any) -> None:
    m.event("steps")
    m.require(set(model.nodes) == s.nodes and set(model.edges) == s.edges, "structure", f"after {what}: nodes {sorted(model.nodes)} edges {sorted(model.edges)}", wit)
    for k, roles, owner, lists in (("D", model.decisions, model.decision_agent, model.agent_decisions), ("U", model.utilities, model.utility_agent, model.agent_utilities)):
        want = {n: a for n, (kk, a) in s.role.items() if kk == k}
        name = {"D": "decision", "U": "utility"}[k]
        m.require(len(list(roles)) == len(set(roles)) and set(roles) == set(want), f"{name}-set", f"after {what}: the {name} nodes are {sorted(roles)}, expected {sorted(want)}", wit)
        m.require(dict(owner) == want, f"{name}-owner", f"after {what}: the owners are {dict(owner)}, expected {want}", wit)
        flat = sorted((n, str(a)) for a, ns in lists.items() for n in ns)
        m.require(flat == sorted((n, str(a)) for n, a in want.items()), f"{name}-lists", f"after {what}: the lists are {dict(lists)}, expected {want}", wit)
    owners = {a for _, a in s.role.values()}
    ags = list(model.agents)
    m.require(owners <= set(ags) <= s.known and len(set(ags)) == len(ags), "agents", f"after {what}: the agents are {ags}, nodes belong to {sorted(map(str, owners))}, known {sorted(map(str, s.known))}", wit)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C22", case)
    seed_globals(rng)
    kind = rng.choice(["cid", "macid", "macidbase"])
    n_ag = 1 if kind == "cid" else rng.choice([1, 2, 3])
    pool: List[Any] = [0, 1, 2, 3] if kind == "cid" or rng.random() < 0.4 else rng.choice([["x", "Y", "b c", "z"], [1, "1", 2, "two"], ["", 0, "p", 5]])
    s = gen.retry(
        rng, gen.rand_diagram, kind=kind, n=(6, 9) if case["kind"] == "big" else (3, 6), agents=n_ag, decs=rng.choice([(1, 1), (1, 2)]), utils=(1, 2), labels=pool[:n_ag],
        connected=rng.random() < 0.6, util_leaf=rng.random() < 0.5, max_rules=10**9, tries=3000,
    )
    with_cpds = case["kind"] == "model"
    model = gen.build(rng, s) if with_cpds else gen.make_structure(s)
    sh = Shadow(s.nodes, s.edges, s.agents)
    log: List[Any] = []
    wit = lambda: {"start": s.describe(), "history": log}  # noqa: E731
    check(m, model, sh, "construction", wit)
    left: List[Any] = []
    for _ in range(rng.randint(6, 30 if case["kind"] == "big" else 16)):
        op = rng.choice(["make_decision"] * 5 + ["make_utility"] * 5 + ["make_chance"] * 3 + ["again", "unknown", "unknown", "add_node", "remove_node", "remove_node", "add_edge", "remove_edge", "copy", "remove_nodes", "cycle", "mechanism"])
        nodes = sorted(sh.nodes)
        if not nodes and op not in ("add_node", "copy"):
            op = "add_node"
        before = {v: table(model, v) for v in nodes}
        touched: set = set()
        if op in ("make_decision", "make_utility"):
            k = "D" if op == "make_decision" else "U"
            v = rng.choice(nodes)
            a = rng.choice(pool)
            log.append([op, v, a])
            old = sh.role.get(v)
            m.event(op)
            m.event("new_agent", int(a not in sh.known))
            m.event("role_kept", int(old == (k, a)))
            m.event("role_moved_between_agents", int(old is not None and old[0] == k and old[1] != a))
            m.event("decision_to_utility", int(old is not None and old[0] == "D" and k == "U"))
            m.event("utility_to_decision", int(old is not None and old[0] == "U" and k == "D"))
            f = getattr(model, op)
            if a == 0 and isinstance(a, int) and rng.random() < 0.5:
                f(v)
            elif rng.random() < 0.5:
                f(v, a)
            else:
                f(v, agent=a)
            sh.role[v] = (k, a)
            sh.known.add(a)
        elif op in ("make_chance", "again"):
            v = rng.choice(nodes)
            if op == "again" and v in sh.role:
                k, a = sh.role[v]
                log.append(["again", v, k, a])
                m.event("role_kept")
                (model.make_decision if k == "D" else model.make_utility)(v, a)
            else:
                log.append(["make_chance", v])
                m.event("make_chance")
                model.make_chance(v)
                sh.role.pop(v, None)
        elif op == "unknown":
            name = rng.choice(["nowhere", "", nodes[0] + "x", nodes[0].lower() + "?"])
            f, extra = rng.choice([(model.make_chance, ()), (model.make_decision, (rng.choice(pool),)), (model.make_utility, (rng.choice(pool),)), (model.make_decision, ("ghost",))])
            log.append(["unknown", f.__name__, name])
            try:
                f(name, *extra)
                m.require(False, "unknown-node-accepted", f"{f.__name__}({name!r}) did not fail", wit)
            except KeyError:
                m.event("unknown_refused")
        elif op == "add_node":
            v = f"new{len(log)}"
            log.append([op, v])
            model.add_node(v)
            sh.nodes.add(v)
        elif op in ("remove_node", "remove_nodes"):
            vs = rng.sample(nodes, 1 if op == "remove_node" else min(2, len(nodes)))
            log.append([op] + vs)
            touched = {b for a, b in sh.edges if a in vs} | set(vs)
            for c in sorted(touched - set(vs)):  # mechanisms that mention a removed node are the user's to replace
                if c in model.model:
                    model.remove_cpds(c)
            m.event("remove_node", len(vs))
            m.event("removed_with_role", sum(v in sh.role for v in vs))
            if op == "remove_node":
                model.remove_node(vs[0])
            else:
                model.remove_nodes_from(vs)
            for v in vs:
                sh.drop(v)
                m.require(v not in model.model and model.get_cpds(v) is None if v in model.nodes else v not in model.model, "mechanism-of-removed-node", f"the mechanism of {v} remains", wit)
                m.require(all(c.variable != v for c in model.get_cpds()), "mechanism-of-removed-node", f"a table of {v} remains", wit)
        elif op in ("add_edge", "cycle"):
            if len(nodes) < 2:
                continue
            u, v = rng.sample(nodes, 2)
            g = sh.diagram()
            cyc = u in g.desc(v) or u == v
            if op == "cycle":
                pairs = [(b, a) for a in nodes for b in sorted(g.desc(a)) if b != a]
                if not pairs:
                    continue
                u, v = rng.choice(pairs)
                cyc = True
            log.append(["add_edge", u, v])
            if cyc:
                try:
                    model.add_edge(u, v)
                    m.require(False, "cycle-accepted", f"the edge {u} -> {v} closes a cycle but was added", wit)
                except ValueError:
                    m.event("cycle_refused")
            elif not with_cpds or model.get_cpds(v) is None:
                model.add_edge(u, v)
                sh.edges.add((u, v))
                touched = {v}
        elif op == "remove_edge":
            es = sorted(sh.edges)
            if not es or with_cpds:
                continue
            e = rng.choice(es)
            log.append([op, *e])
            model.remove_edge(*e)
            sh.edges.discard(e)
            touched = {e[1]}
        elif op == "mechanism":
            v = rng.choice(nodes)
            if v in sh.role and sh.role[v][0] == "D" and v in model.model.domain and rng.random() < 0.5:
                if any(model.get_cpds(p) is None for p in model.get_parents(v)):
                    continue
                log.append(["uniform", v])
                model.impute_random_decision(v)
            elif not model.get_parents(v) and not model.get_children(v):
                log.append([op, v])
                model.add_cpds(**{v: {0: 0.25, 1: 0.75}})
            touched = {v}
        elif op == "copy":
            log.append(["copy"])
            m.event("copies")
            dup = model.copy() if rng.random() < 0.5 or not hasattr(model, "copy_without_cpds") else model.copy_without_cpds()
            bare = type(dup) is type(model) and with_cpds and not list(dup.model)
            if bare:
                check(m, dup, sh, "copy_without_cpds", wit)
            else:
                left.append((model, copy.deepcopy(sh), len(log)))
                model = dup
                touched = set(nodes)
        check(m, model, sh, log[-1] if log else "nothing", wit)
        for v in nodes:
            if v in sh.nodes and v not in touched and before[v] is not None:
                m.event("mechanisms_kept")
                m.require(table(model, v) == before[v], "mechanism-changed", f"the mechanism of {v} changed in {log[-1:]}", wit)
    for old, shadow, n in left:
        check(m, old, shadow, f"the original, after {len(log) - n} operations on its copy", wit)
    m.evaluated([s.edges, str(s.agents), log])
    final(m, rng, model, sh, wit)


def final(m: Any, rng: Any, model: Any, sh: Shadow, wit: Any) -> None:
    """The roles in force are the ones the analyses use."""
    g = sh.diagram()
    for a in sorted({a for _, a in sh.role.values()}, key=str):
        m.event("recall_compared")
        m.require(model.sufficient_recall(a) == g.sufficient_recall(a), "recall", f"sufficient_recall({a!r}) is {model.sufficient_recall(a)}", wit)
    m.require(model.sufficient_recall() == g.sufficient_recall(), "recall", f"sufficient_recall() is {model.sufficient_recall()}", wit)
    pairs = [(a, b) for a in g.decisions for b in g.decisions if a != b]
    for a, b in rng.sample(pairs, min(6, len(pairs))):
        m.event("relevance_compared")
        m.require(model.is_s_reachable(a, b) == g.r_reachable(a, b), "relevance", f"is_s_reachable({a}, {b}) is {model.is_s_reachable(a, b)}", wit)
