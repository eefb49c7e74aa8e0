"""Independent reference semantics: nothing here imports pycid, pgmpy or pygambit.

A `Net` is a set of conditional tables over named finite variables. Axis order of a table is
(parents..., variable); every axis is indexed by the position of the outcome in `dom[variable]`.
"""
from __future__ import annotations

import itertools
from typing import Any, Dict, Iterable, Iterator, List, Mapping, Optional, Sequence, Set, Tuple

import numpy as np


class Net:
    def __init__(self, dom: Mapping[str, Sequence[Any]], parents: Mapping[str, Sequence[str]], tables: Mapping[str, np.ndarray]):
        self.dom = {v: list(d) for v, d in dom.items()}
        self.parents = {v: list(p) for v, p in parents.items()}
        self.tables = {v: np.asarray(t, dtype=float) for v, t in tables.items()}
        self.ids = {v: i for i, v in enumerate(self.dom)}

    def copy(self) -> "Net":
        return Net(self.dom, self.parents, self.tables)

    def idx(self, v: str, outcome: Any) -> int:
        return self.dom[v].index(outcome)

    # -- inference ------------------------------------------------------------------------------------------
    def weight(self, query: Sequence[str], context: Mapping[str, Any], skip: Iterable[str] = ()) -> np.ndarray:
        """Unnormalised P(query, context); `skip` omits factors (used for game tensors).

        Only ancestors of query and context matter when no factor is skipped.
        """
        ops: List[Any] = []
        need = set(self.dom) if skip else self.ancestors(list(query) + list(context))
        skip = set(skip)
        for v in self.dom:
            if v in skip or v not in need:
                continue
            axes = self.parents[v] + [v]
            ops += [self.tables[v], [self.ids[a] for a in axes]]
        for v, o in context.items():
            e = np.zeros(len(self.dom[v]))
            e[self.idx(v, o)] = 1.0
            ops += [e, [self.ids[v]]]
        for v in query:  # make sure every query axis occurs
            ops += [np.ones(len(self.dom[v])), [self.ids[v]]]
        if not ops:
            return np.array(1.0)
        return np.einsum(*ops, [self.ids[v] for v in query], optimize="greedy")

    def prob(self, query: Sequence[str], context: Mapping[str, Any] = {}) -> Optional[np.ndarray]:
        """P(query | context) as an array over the query axes; None where P(context) is (numerically) 0."""
        w = self.weight(list(query), context)
        z = float(w.sum())
        if z < 1e-12:
            return None
        return w / z

    def evidence_prob(self, context: Mapping[str, Any]) -> float:
        return float(self.weight([], context))

    def do(self, iv: Mapping[str, Any]) -> "Net":
        n = self.copy()
        for v, o in iv.items():
            t = np.zeros(len(n.dom[v]))
            t[n.idx(v, o)] = 1.0
            n.parents[v] = []
            n.tables[v] = t
        return n

    def expect(self, v: str, context: Mapping[str, Any] = {}) -> Optional[float]:
        p = self.prob([v], context)
        return None if p is None else float(p @ np.array(self.dom[v], dtype=float))

    def with_policy(self, pol: Mapping[str, np.ndarray]) -> "Net":
        n = self.copy()
        for d, t in pol.items():
            n.tables[d] = np.asarray(t, dtype=float)
        return n

    # -- structure ------------------------------------------------------------------------------------------
    def children(self, v: str) -> List[str]:
        return [c for c in self.dom if v in self.parents[c]]

    def ancestors(self, vs: Iterable[str]) -> Set[str]:
        """Ancestors including the nodes themselves."""
        out: Set[str] = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v not in out:
                out.add(v)
                todo += self.parents[v]
        return out


# ---------------------------------------------------------------------------------------------------------------
class Graph:
    """A DAG by parent lists, with its own d-separation, path enumeration and influence-diagram criteria."""

    def __init__(self, nodes: Iterable[str], edges: Iterable[Tuple[str, str]]):
        self.nodes = list(nodes)
        self.pa: Dict[str, List[str]] = {v: [] for v in self.nodes}
        self.ch: Dict[str, List[str]] = {v: [] for v in self.nodes}
        for u, v in edges:
            if u not in self.pa[v]:
                self.pa[v].append(u)
                self.ch[u].append(v)

    def edges(self) -> List[Tuple[str, str]]:
        return [(u, v) for v in self.nodes for u in self.pa[v]]

    def with_edges(self, add: Iterable[Tuple[str, str]] = (), remove: Iterable[Tuple[str, str]] = (), nodes: Iterable[str] = ()) -> "Graph":
        rm = set(remove)
        return Graph(self.nodes + [n for n in nodes if n not in self.nodes], [e for e in self.edges() if e not in rm] + list(add))

    def anc(self, vs: Iterable[str]) -> Set[str]:
        out: Set[str] = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v not in out:
                out.add(v)
                todo += self.pa[v]
        return out

    def desc(self, v: str) -> Set[str]:
        """Strict descendants."""
        out: Set[str] = set()
        todo = list(self.ch[v])
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.ch[x]
        return out

    def dsep(self, a: Iterable[str], b: Iterable[str], given: Iterable[str]) -> bool:
        """Moralised ancestral graph criterion."""
        a, b, g = set(a), set(b), set(given)
        a, b = a - g, b - g
        if not a or not b:
            return True
        if a & b:
            return False
        keep = self.anc(a | b | g)
        adj: Dict[str, Set[str]] = {v: set() for v in keep}
        for v in keep:
            fam = self.pa[v] + [v]
            for x, y in itertools.combinations(fam, 2):
                adj[x].add(y)
                adj[y].add(x)
        seen, todo = set(a), list(a)
        while todo:
            v = todo.pop()
            for w in adj[v]:
                if w not in seen and w not in g:
                    if w in b:
                        return False
                    seen.add(w)
                    todo.append(w)
        return True

    def connected(self, a: str, b: str) -> bool:
        seen, todo = {a}, [a]
        while todo:
            v = todo.pop()
            for w in self.pa[v] + self.ch[v]:
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return b in seen

    def dir_paths(self, s: str, t: str) -> List[Tuple[str, ...]]:
        out: List[Tuple[str, ...]] = []

        def go(path: Tuple[str, ...]) -> None:
            if path[-1] == t:
                out.append(path)
                return
            for c in self.ch[path[-1]]:
                go(path + (c,))

        go((s,))
        return out

    def undir_paths(self, s: str, t: str) -> List[Tuple[str, ...]]:
        out: List[Tuple[str, ...]] = []

        def go(path: Tuple[str, ...]) -> None:
            if path[-1] == t:
                out.append(path)
                return
            for c in self.ch[path[-1]] + self.pa[path[-1]]:
                if c not in path:
                    go(path + (c,))

        go((s,))
        return out

    def motif(self, a: str, b: str, c: str) -> str:
        into = a in self.pa[b]
        onto = c in self.ch[b]
        if into and onto:
            return "forward"
        if into and not onto:
            return "collider"
        if not into and onto:
            return "fork"
        return "backward"

    def path_active(self, path: Sequence[str], obs: Set[str]) -> bool:
        for a, b, c in zip(path, path[1:], path[2:]):
            if self.motif(a, b, c) == "collider":
                if not ((self.desc(b) | {b}) & obs):
                    return False
            elif b in obs:
                return False
        return True

    def acyclic(self) -> bool:
        state: Dict[str, int] = {}

        def go(v: str) -> bool:
            if state.get(v) == 1:
                return False
            if state.get(v) == 2:
                return True
            state[v] = 1
            ok = all(go(c) for c in self.ch[v])
            state[v] = 2
            return ok

        return all(go(v) for v in self.nodes)


class Diagram(Graph):
    """Graph + agents' decisions and utilities."""

    def __init__(self, nodes: Iterable[str], edges: Iterable[Tuple[str, str]], agents: Mapping[Any, Mapping[str, Sequence[str]]]):
        super().__init__(nodes, edges)
        self.agents = {a: {"D": list(x["D"]), "U": list(x["U"])} for a, x in agents.items()}
        self.agent_of = {n: a for a, x in self.agents.items() for k in "DU" for n in x[k]}
        self.decisions = [d for a, x in self.agents.items() for d in x["D"]]
        self.utilities = [u for a, x in self.agents.items() for u in x["U"]]

    def alter(self, add: Iterable[Tuple[str, str]] = (), remove: Iterable[Tuple[str, str]] = ()) -> "Diagram":
        rm = set(remove)
        return Diagram(self.nodes, [e for e in self.edges() if e not in rm] + list(add), self.agents)

    def own_utils(self, d: str) -> Set[str]:
        return set(self.agents[self.agent_of[d]]["U"]) & self.desc(d)

    def mec(self, v: str) -> Graph:
        return Graph(self.nodes + [("mec", v)], self.edges() + [(("mec", v), v)])  # type: ignore

    def r_reachable(self, d: str, v: str) -> bool:
        """v is r-reachable from decision d."""
        us = self.own_utils(d)
        return bool(us) and not self.mec(v).dsep([("mec", v)], us, [d] + self.pa[d])  # type: ignore

    def relevance_edges(self, decs: Optional[Iterable[str]] = None) -> Set[Tuple[str, str]]:
        ds = list(self.decisions if decs is None else decs)
        return {(a, b) for a in ds for b in ds if a != b and self.r_reachable(a, b)}

    def sufficient_recall(self, agent: Any = None) -> bool:
        for a in self.agents if agent is None else [agent]:
            ds = self.agents[a]["D"]
            if not Graph(ds, self.relevance_edges(ds)).acyclic():
                return False
        return True

    def requisite(self, d: str, x: str) -> bool:
        us = self.own_utils(d)
        return bool(us) and not self.dsep([x], us, [n for n in [d] + self.pa[d] if n != x])

    def requisite_graph(self) -> "Diagram":
        """Repeatedly remove nonrequisite observation links until none is left (one at a time)."""
        g = self
        while True:
            for d in g.decisions:
                for x in list(g.pa[d]):
                    if not g.requisite(d, x):
                        g = g.alter(remove=[(x, d)])
                        break
                else:
                    continue
                break
            else:
                return g

    def sccs(self) -> List[Set[str]]:
        e = self.relevance_edges()
        g = Graph(self.decisions, e)
        out: List[Set[str]] = []
        done: Set[str] = set()
        for d in self.decisions:
            if d not in done:
                s = {x for x in self.decisions if x == d or (x in g.desc(d) and d in g.desc(x))}
                out.append(s)
                done |= s
        return out

    def subgame_decision_sets(self) -> Set[frozenset]:
        """Nonempty sets of decisions closed under 'relies on' (unions of SCCs closed downwards)."""
        g = Graph(self.decisions, self.relevance_edges())
        sccs = self.sccs()
        out: Set[frozenset] = set()
        for r in range(1, len(sccs) + 1):
            for c in itertools.combinations(sccs, r):
                s = set().union(*c)
                if all(g.desc(d) <= s for d in s):
                    out.add(frozenset(s))
        return out


# -- games --------------------------------------------------------------------------------------------------------
class Game:
    """Expected-utility tensors of a Net with decisions: EU_i(policy) = sum_s prod_d pi_d(d | pa_d) T_i[s]."""

    def __init__(self, net: Net, decisions: Sequence[str], utilities: Mapping[Any, Sequence[str]]):
        self.net = net
        self.decisions = list(decisions)
        self.utils = {a: list(us) for a, us in utilities.items()}
        axes: List[str] = []
        for d in self.decisions:
            for v in net.parents[d] + [d]:
                if v not in axes:
                    axes.append(v)
        self.axes = axes
        self.T: Dict[Any, np.ndarray] = {}
        size = int(np.prod([len(net.dom[a]) for a in axes])) if axes else 1
        assert size < 5_000_000
        for i, us in utilities.items():
            t = np.zeros([len(net.dom[a]) for a in axes])
            for u in us:
                aug = net.copy()
                # fold u's value in as an extra factor
                t = t + _weighted(aug, axes, u, self.decisions)
            self.T[i] = t
        self.P = net.weight(axes, {}, skip=self.decisions) if self.decisions else np.array(1.0)

    def eu(self, agent: Any, pol: Mapping[str, np.ndarray]) -> float:
        ops: List[Any] = [self.T[agent], [self.axes.index(a) for a in self.axes]]
        for d in self.decisions:
            ops += [pol[d], [self.axes.index(a) for a in self.net.parents[d] + [d]]]
        return float(np.einsum(*ops, [], optimize="greedy"))

    def pure_rules(self, d: str) -> Iterator[np.ndarray]:
        shape = [len(self.net.dom[p]) for p in self.net.parents[d]]
        k = len(self.net.dom[d])
        n = int(np.prod(shape)) if shape else 1
        eye = np.eye(k)
        for choice in itertools.product(range(k), repeat=n):
            yield eye[list(choice)].reshape(shape + [k])

    def n_rules(self, d: str) -> int:
        n = int(np.prod([len(self.net.dom[p]) for p in self.net.parents[d]])) if self.net.parents[d] else 1
        return len(self.net.dom[d]) ** n

    def best(self, agent: Any, decs: Sequence[str], pol: Mapping[str, np.ndarray]) -> float:
        """max over pure rules of `decs` (equals the max over all correlated/mixed ones)."""
        best = -np.inf
        for combo in itertools.product(*[list(self.pure_rules(d)) for d in decs]):
            best = max(best, self.eu(agent, {**pol, **dict(zip(decs, combo))}))
        return best


def _weighted(net: Net, axes: Sequence[str], u: str, skip: Sequence[str]) -> np.ndarray:
    ops: List[Any] = []
    sk = set(skip)
    for v in net.dom:
        if v in sk:
            continue
        ops += [net.tables[v], [net.ids[a] for a in net.parents[v] + [v]]]
    ops += [np.array(net.dom[u], dtype=float), [net.ids[u]]]
    for v in axes:
        ops += [np.ones(len(net.dom[v])), [net.ids[v]]]
    return np.einsum(*ops, [net.ids[v] for v in axes], optimize="greedy")


def uniform(net: Net, d: str) -> np.ndarray:
    k = len(net.dom[d])
    return np.full([len(net.dom[p]) for p in net.parents[d]] + [k], 1.0 / k)
