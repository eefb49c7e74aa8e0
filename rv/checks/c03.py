"""C03: after any history of edits the model equals the one its final statements describe."""
from __future__ import annotations

import itertools
import random
from typing import Any, Dict, List, Optional, Tuple

import numpy as np

from rv import gen
from rv.common import check_query, make_cases, rand_context, rng_of, seed_globals
from rv.monitor import say
from rv.ref import Net

RULE = (
    "random edit histories (10-40 steps of adding, replacing, removing and re-adding mechanisms in any order and "
    "grouping, changing domains, adding and removing edges, continuing on a copy) over 3-6 nodes; whenever every node "
    "has a mechanism the live domains and tables are compared with the ones the current statements describe (evaluated "
    "by the harness), and queries with brute force. Non-trivial: at least one statement was replaced, re-added or had a "
    "parent's domain changed; distinct by history."
)
ASSUMPTIONS = [
    "after an edge into a function-valued node changes, its function is stated again (a function does not know its new argument)",
    "a compiled table object is stated again when a parent's domain changes",
]
MIN_EVENTS = {"states_compared": 1000, "domain_changes_with_children": 300, "edges_removed": 100, "edges_added": 100, "edges_removed_together": 50, "nodes_replaced": 60, "query_compared": 300, "unfinished_states": 2000, "closed_nodes": 2000, "open_tables": 100}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, chance=260 * k, diagram=160 * k)


POOLS = [[0, 1], [0, 1, 2], [1, 2], [-1, 4], [5, 0, 3], [2, 3], [1, 0]]


class Abstract:
    """The statements in force, and the model they describe."""

    def __init__(self) -> None:
        self.nodes: List[str] = []
        self.edges: List[Tuple[str, str]] = []
        self.st: Dict[str, Tuple[Any, ...]] = {}
        self.decisions: set = set()

    def parents(self, v: str) -> List[str]:
        return [a for a, b in self.edges if b == v]

    def row(self, v: str, st: Tuple[Any, ...], pv: Dict[str, Any]) -> Dict[Any, Any]:
        if st[0] == "const":
            return dict(st[1])
        if st[0] == "cobj":
            return dict(st[1])
        if st[0] == "list":
            return {}
        return func_row(st, pv)

    def net(self) -> Net:
        dom: Dict[str, List[Any]] = {}
        tables: Dict[str, np.ndarray] = {}
        left = list(self.nodes)
        while left:
            v = next(x for x in left if all(p in dom for p in self.parents(x)))
            left.remove(v)
            pa = self.parents(v)
            st = self.st[v]
            keys = list(itertools.product(*[dom[p] for p in pa]))
            if st[0] == "tab":
                dom[v], tables[v] = list(st[1]), self.tab_table(v, st, dom)
                continue
            rows = {key: self.row(v, st, dict(zip(pa, key))) for key in keys}
            dom[v] = list(st[2]) if st[0] == "cobj" else list(st[1]) if st[0] == "list" else sorted(set().union(*[set(r) for r in rows.values()]))
            t = np.zeros([len(dom[p]) for p in pa] + [len(dom[v])])
            for key, r in rows.items():
                given = {o: p for o, p in r.items() if p is not None}
                rest = [o for o in dom[v] if o not in given]
                mass = max(0.0, 1 - sum(given.values()))
                t[tuple(dom[p].index(x) for p, x in zip(pa, key))] = [given[o] if o in given else mass / len(rest) for o in dom[v]]
            tables[v] = t
        return Net({v: dom[v] for v in self.nodes}, {v: self.parents(v) for v in self.nodes}, tables)

    def tab_table(self, v: str, st: Tuple[Any, ...], dom: Dict[str, List[Any]]) -> np.ndarray:
        pa = self.parents(v)
        t = np.zeros([len(dom[p]) for p in pa] + [len(st[1])])
        for idx in itertools.product(*[range(len(dom[p])) for p in pa]):
            pv = {p: dom[p][i] for p, i in zip(pa, idx)}
            t[idx] = tab_row(st, pv)
        return t


def tab_row(st: Tuple[Any, ...], pv: Dict[str, Any]) -> List[float]:
    r = random.Random(f"{st[2]}|{sorted(pv.items())}")
    return gen.rand_dist(r, len(st[1]), "free")


def func_row(st: Tuple[Any, ...], pv: Dict[str, Any]) -> Dict[Any, Any]:
    _, mode, seed, pool = st
    if mode == "sum":
        return {sum(pv.values()) + seed: 1}
    if mode == "mod":
        return {(sum(pv.values()) + seed) % 3: 1}
    r = random.Random(f"{seed}|{sorted(pv.items())}")
    if mode == "noisy":
        x = r.choice(pool)
        return {x: 0.7, **{o: None for o in pool if o != x}}
    return dict(zip(pool, gen.rand_dist(r, len(pool), "free")))


def new_statement(rng: random.Random, ab: Abstract, v: str, ready: bool) -> Tuple[Any, ...]:
    pa = ab.parents(v)
    pool = list(rng.choice(POOLS))
    if v in ab.decisions and rng.random() < 0.5:
        return ("list", pool)
    kinds = ["const", "func", "func", "func"] + (["cobj", "tab"] if ready else [])
    k = rng.choice(kinds)
    if k == "const":
        d = dict(zip(pool, gen.rand_dist(rng, len(pool), "free")))
        if rng.random() < 0.3:
            d[pool[0]] = None
        return ("const", d)
    if k == "cobj":
        dom = rng.sample(pool, len(pool))
        return ("cobj", {pool[0]: rng.random()}, dom)
    if k == "tab":
        return ("tab", rng.sample(pool, len(pool)), rng.random())
    mode = rng.choice(["sum", "mod", "full", "full", "noisy"]) if pa else rng.choice(["full", "noisy"])
    if mode == "sum" and len(pa) > 2:
        mode = "mod"
    return ("func", mode, rng.randrange(1000), pool)


def relationship(ab: Abstract, v: str, model: Any) -> Any:
    from pgmpy.factors.discrete import TabularCPD
    from pycid.core.cpd import ConstantCPD

    st = ab.st[v]
    pa = ab.parents(v)
    if st[0] == "const":
        return dict(st[1])
    if st[0] == "list":
        return list(st[1])
    if st[0] == "cobj":
        return ConstantCPD(v, dict(st[1]), model, domain=list(st[2]))
    if st[0] == "tab":
        dom = {p: list(model.model.domain[p]) for p in pa}
        vals = np.array([tab_row(st, dict(zip(pa, key))) for key in itertools.product(*[dom[p] for p in pa])]).T
        return TabularCPD(v, len(st[1]), vals, evidence=pa or None, evidence_card=[len(dom[p]) for p in pa] or None,
                          state_names={v: list(st[1]), **dom})
    return lambda **pv: func_row(st, pv)


def make(rng: random.Random, kind: str) -> Tuple[Abstract, Any]:
    import pycid

    ab = Abstract()
    n = rng.randint(3, 6)
    pool = list(rng.choice(gen.NAME_POOLS))
    rng.shuffle(pool)
    names = pool[:n]
    ab.edges = [(names[i], names[j]) for i, j in gen.rand_order_edges(rng, n, rng.choice([0.4, 0.7]), 2)]
    ab.nodes = rng.sample(names, n)
    if kind == "chance":
        model = pycid.CausalBayesianNetwork(list(ab.edges))
    else:
        ab.decisions = set(rng.sample(names, rng.choice([1, 2])))
        ds = sorted(ab.decisions)
        model = pycid.CID(list(ab.edges), decisions=ds) if rng.random() < 0.5 else pycid.MACID(list(ab.edges), agent_decisions={0: ds[:1], 1: ds[1:]})
    model.add_nodes_from([v for v in ab.nodes if v not in model.nodes])
    ab.order = names  # type: ignore[attr-defined]
    return ab, model


def compare(m: Any, ab: Abstract, model: Any, log: List[Any], what: str) -> Optional[Net]:
    net = ab.net()
    if any(len(net.dom[v]) > 9 for v in net.dom) or np.prod([len(d) for d in net.dom.values()]) > 200_000:
        return None
    m.event("states_compared")
    for v in ab.nodes:
        live = list(model.model.domain.get(v, ["none"]))
        m.require(live == net.dom[v], "domain-after-history", f"{what}: domain of {v} is {live}, its statements describe {net.dom[v]}", lambda: {"history": log})
        m.require(model.get_cpds(v) is not None, "mechanism-missing", f"{what}: {v} has no table although it and all its ancestors are stated", lambda: {"history": log})
    for v in ab.nodes:
        try:
            t = gen.cpd_to_table(model, v, ab.parents(v), net.dom)
        except ValueError as e:
            m.require(False, "table-shape-after-history", f"{what}: {say(e)}", lambda: {"history": log})
        m.require(t.shape == net.tables[v].shape and np.allclose(t, net.tables[v], atol=1e-9), "table-after-history",
                  f"{what}: the table of {v} is not the stated one", lambda: {"history": log, "got": t, "want": net.tables[v]})
        names = model.get_cpds(v).state_names
        for p in ab.parents(v) + [v]:
            m.require(list(names[p]) == net.dom[p], "labels-after-history", f"{what}: {v}'s table labels {p} as {names[p]}, domain {net.dom[p]}", lambda: {"history": log})
    return net


def compare_unfinished(m: Any, ab: Abstract, model: Any, log: List[Any], what: str) -> None:
    """With some statements missing, what tables there are belong to the statements in force and the present parents."""
    wit = lambda: {"history": log}  # noqa: E731
    m.event("unfinished_states")
    above: Dict[str, set] = {}

    def lineage(v: str) -> set:
        if v not in above:
            above[v] = {v}.union(*[lineage(p) for p in ab.parents(v)])
        return above[v]

    part = Abstract()
    part.nodes = [v for v in ab.nodes if lineage(v) <= set(ab.st)]
    part.edges = [(a, b) for a, b in ab.edges if b in part.nodes]
    part.st = {v: ab.st[v] for v in part.nodes}
    part.decisions = ab.decisions & set(part.nodes)
    net = part.net()
    for v in ab.nodes:
        f = model.get_cpds(v)
        if v not in ab.st:
            m.require(f is None, "table-without-statement", f"{what}: {v} has a table but no statement", wit)
            continue
        if v in part.nodes:
            m.event("closed_nodes")
            m.require(f is not None, "mechanism-missing", f"{what}: {v} has no table although it and all its ancestors are stated", wit)
            live = list(model.model.domain.get(v, ["none"]))
            m.require(live == net.dom[v], "domain-after-history", f"{what}: domain of {v} is {live}, its statements describe {net.dom[v]}", wit)
            try:
                t = gen.cpd_to_table(model, v, ab.parents(v), net.dom)
            except ValueError as e:
                m.require(False, "table-shape-after-history", f"{what}: {say(e)}", wit)
            m.require(t.shape == net.tables[v].shape and np.allclose(t, net.tables[v], atol=1e-9), "table-after-history",
                      f"{what}: the table of {v} is not the stated one", lambda: {"history": log, "got": t, "want": net.tables[v]})
        elif f is not None and ab.st[v][0] != "tab":
            m.event("open_tables")
            m.require(sorted(f.variables) == sorted([v] + ab.parents(v)), "stale-table",
                      f"{what}: {v} has a table over {list(f.variables)}, its parents are {ab.parents(v)}", wit)
            names = {p: list(f.state_names[p]) for p in ab.parents(v)}
            t = np.transpose(f.values, [list(f.variables).index(x) for x in ab.parents(v) + [v]])
            own = list(f.state_names[v])
            for idx in itertools.product(*[range(len(names[p])) for p in ab.parents(v)]):
                r = ab.row(v, ab.st[v], {p: names[p][i] for p, i in zip(ab.parents(v), idx)})
                bad = [o for o, pr in r.items() if pr is not None and (o not in own or abs(t[idx][own.index(o)] - pr) > 1e-9)]
                m.require(not bad, "stale-rows", f"{what}: a table of {v} is not the stated one", wit)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C03", case)
    seed_globals(rng)
    ab, model = make(rng, case["kind"])
    order = ab.order  # type: ignore[attr-defined]
    log: List[Any] = [["edges", list(ab.edges)], ["nodes", list(ab.nodes)], ["decisions", sorted(ab.decisions)]]
    rewrites = 0

    def ready(v: str) -> bool:
        return all(p in model.model.domain and p in ab.st and model.get_cpds(p) is not None for p in ab.parents(v))

    def unfit(vs: List[str]) -> None:
        """Mechanisms that name their parents are taken back before the parents change."""
        for b in dict.fromkeys(vs):
            if b in ab.st and ab.st[b][0] in ("func", "tab"):
                model.remove_cpds(b)
                del ab.st[b]

    def stale_tables(before: Dict[str, Any]) -> None:
        """Compiled table objects whose parents' domains changed are stated again."""
        for _ in range(len(ab.nodes)):
            for v in order:
                st = ab.st.get(v)
                if st and st[0] == "tab" and ready(v):
                    cpd = model.get_cpds(v)
                    key = tuple((p, tuple(model.model.domain[p])) for p in ab.parents(v))
                    if before.get(v) != key or cpd is None:
                        if v in before:
                            put([v])
                        before[v] = key

    tabkey: Dict[str, Any] = {}

    def put(vs: List[str]) -> None:
        rel = {v: relationship(ab, v, model) for v in vs}
        log.append(["put", {v: str(ab.st[v]) for v in vs}])
        if len(vs) == 1 and rng.random() < 0.3:
            model.model[vs[0]] = rel[vs[0]]
        else:
            cpds = [r for r in rel.values() if hasattr(r, "variable") and rng.random() < 0.5]
            model.add_cpds(*cpds, **{v: r for v, r in rel.items() if not any(r is c for c in cpds)})

    def restate(v: str) -> None:
        nonlocal rewrites
        rewrites += v in ab.st
        old = list(model.model.domain.get(v, []))
        ab.st[v] = new_statement(rng, ab, v, ready(v))
        put([v])
        if v in model.model.domain and old != list(model.model.domain[v]) and any(a == v and b in ab.st for a, b in ab.edges):
            m.event("domain_changes_with_children")
        stale_tables(tabkey)

    for step in range(rng.randint(10, 40)):
        op = rng.random()
        if op < 0.62:
            vs = [v for v in ab.nodes if v not in ab.st] or ab.nodes
            if rng.random() < 0.4:
                vs = ab.nodes
            if rng.random() < 0.15:  # several at once
                some = rng.sample(ab.nodes, rng.randint(2, len(ab.nodes)))
                for v in some:
                    rewrites += v in ab.st
                    ab.st[v] = new_statement(rng, ab, v, False)
                put(some)
                stale_tables(tabkey)
            else:
                restate(rng.choice(vs))
        elif op < 0.70 and ab.st:
            v = rng.choice(sorted(ab.st))
            if model.get_cpds(v) is not None or True:
                cpd = model.get_cpds(v)
                log.append(["remove", v])
                model.remove_cpds(cpd if cpd is not None and rng.random() < 0.5 else v)
                del ab.st[v]
                m.event("mechanisms_removed")
                if rng.random() < 0.5:
                    restate(v)
        elif op < 0.80:
            pairs = [(a, b) for i, a in enumerate(order) for b in order[i + 1 :] if (a, b) not in ab.edges and len(ab.parents(b)) < 3]
            if pairs:
                some = []
                for a, b in rng.sample(pairs, min(len(pairs), rng.choice([1, 1, 1, 2, 3]))):
                    if len(ab.parents(b)) + sum(y == b for _, y in some) < 3:
                        some.append((a, b))
                log.append(["add_edges", *some])
                unfit([b for _, b in some])
                if len(some) == 1 and rng.random() < 0.7:
                    model.add_edge(*some[0])
                else:
                    model.add_edges_from(rng.choice([list, tuple, iter])(some))
                    m.event("edges_added_together")
                ab.edges += some
                m.event("edges_added", len(some))
                for b in sorted({b for _, b in some}):
                    if b not in ab.st and rng.random() < 0.7:
                        restate(b)
                stale_tables(tabkey)
        elif op < 0.90 and ab.edges:
            some = rng.sample(ab.edges, min(len(ab.edges), rng.choice([1, 1, 1, 2, 3])))
            log.append(["remove_edges", *some])
            unfit([b for _, b in some])
            if len(some) == 1 and rng.random() < 0.7:
                model.remove_edge(*some[0])
            else:
                model.remove_edges_from(rng.choice([list, tuple, iter])(some))
                m.event("edges_removed_together")
            for e in some:
                ab.edges.remove(e)
            m.event("edges_removed", len(some))
            for b in sorted({b for _, b in some}):
                if b not in ab.st and rng.random() < 0.7:
                    restate(b)
            stale_tables(tabkey)
        elif op < 0.95:
            log.append(["copy"])
            try:
                model = model.copy()
            except Exception:
                log.append(["copy failed"])
                raise
        elif op < 0.98:
            v = rng.choice(ab.nodes)
            gone = [e for e in ab.edges if v in e]
            back = [e for e in gone if rng.random() < 0.6]
            log.append(["replace_node", v, back])
            unfit([b for _, b in gone])
            agent = model.decision_agent[v] if v in ab.decisions else None
            if rng.random() < 0.5:
                model.remove_node(v)
            else:
                model.remove_nodes_from([v])
            ab.st.pop(v, None)
            model.add_node(v)
            if agent is not None:
                model.make_decision(v, agent)
            model.add_edges_from(back)
            ab.edges = [e for e in ab.edges if v not in e] + back
            m.event("nodes_replaced")
            for b in dict.fromkeys([v] + [b for _, b in back]):
                if b not in ab.st and rng.random() < 0.7:
                    restate(b)
            stale_tables(tabkey)
        if len(ab.st) == len(ab.nodes):
            if compare(m, ab, model, log, f"step {step}") is None:
                m.event("state_too_large")
                return
        else:
            compare_unfinished(m, ab, model, log, f"step {step}")
    for v in order:
        if v not in ab.st:
            restate(v)
    net = compare(m, ab, model, log, "final")
    if net is None:
        m.event("state_too_large")
        return
    m.evaluated(log, rewrites > 0)
    for _ in range(3):
        q = rng.sample(ab.nodes, rng.randint(1, 2))
        ctx = rand_context(rng, net, [v for v in ab.nodes if v not in q], rng.choice([0, 1, 2]))
        if case["kind"] == "chance" or not any(st[0] == "list" for st in ab.st.values()):
            check_query(m, model, net, q, ctx, None)
