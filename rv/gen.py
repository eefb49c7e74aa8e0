"""Seeded generation of models as plain data (`Spec`), and the builder that turns one into live pycid objects.

The specification says what the model means; the reference (`Spec.net()`) is computed from it without pycid, and
the builder expresses it through one of the public ways to state a mechanism.
"""
from __future__ import annotations

import copy as _copy
import functools
import itertools
import random
from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Sequence, Tuple

import numpy as np

from rv.ref import Diagram, Net

NAME_POOLS = [
    ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J"],
    ["X1", "X2", "X3", "X10", "Y", "Z", "W", "V", "Q", "R"],
    ["zeta", "alpha", "Beta", "mid", "a_1", "omega", "kappa", "b2", "n0", "tau"],
    ["D^0_0", "U^0_0", "D^1_0", "U^1_0", "X_0", "X_1", "X_2", "X_3", "X_4", "X_5"],
]


class NoSpec(Exception):
    """The generator found no model within the limits it was given; the case observes nothing."""


class Spec:
    def __init__(self) -> None:
        self.kind = "cbn"
        self.nodes: List[str] = []
        self.edges: List[Tuple[str, str]] = []
        self.dom: Dict[str, List[Any]] = {}
        self.tables: Dict[str, np.ndarray] = {}  # axes (parents in edge order..., node)
        self.style: Dict[str, str] = {}
        self.agents: Dict[Any, Dict[str, List[str]]] = {}
        self.nopolicy: set = set()  # decisions left without a policy
        self.latents: set = set()  # variables declared latent

    def parents(self, v: str) -> List[str]:
        return [a for a, b in self.edges if b == v]

    def copy(self) -> "Spec":
        return _copy.deepcopy(self)

    @property
    def decisions(self) -> List[str]:
        return [d for x in self.agents.values() for d in x["D"]]

    @property
    def utilities(self) -> List[str]:
        return [d for x in self.agents.values() for d in x["U"]]

    def agents_nodes(self) -> List[str]:
        return self.decisions + self.utilities

    def net(self, policies: Optional[Mapping[str, np.ndarray]] = None) -> Net:
        tables = dict(self.tables)
        for d in self.nopolicy:
            shape = [len(self.dom[p]) for p in self.parents(d)] + [len(self.dom[d])]
            tables[d] = np.full(shape, 1.0 / len(self.dom[d]))
        tables.update(policies or {})
        return Net({v: self.dom[v] for v in self.nodes}, {v: self.parents(v) for v in self.nodes}, tables)

    def diagram(self) -> Diagram:
        return Diagram(self.nodes, self.edges, self.agents)

    def describe(self) -> Dict[str, Any]:
        return {
            "kind": self.kind,
            "nodes": self.nodes,
            "edges": [list(e) for e in self.edges],
            "domains": self.dom,
            "tables": {v: np.round(t, 6).tolist() for v, t in self.tables.items() if v not in self.nopolicy},
            "styles": self.style,
            "agents": {str(a): x for a, x in self.agents.items()},
            "no_policy": sorted(self.nopolicy),
            "latents": sorted(self.latents),
        }


# -- distributions ----------------------------------------------------------------------------------------------
def rand_dist(rng: random.Random, k: int, mode: str) -> List[float]:
    if mode == "det":
        p = [0.0] * k
        p[rng.randrange(k)] = 1.0
        return p
    if mode == "sparse" and k > 1 and rng.random() < 0.5:
        z = rng.randrange(k)
        w = [0.0 if i == z else rng.uniform(0.1, 1) for i in range(k)]
    elif mode == "tiny" and k > 1:  # rare outcomes
        w = [10 ** -rng.uniform(2, 9) if rng.random() < 0.4 else rng.uniform(0.05, 1) for i in range(k)]
        w[rng.randrange(k)] = 1.0
    elif mode == "coarse":
        w = [rng.choice([1, 1, 2, 3]) for _ in range(k)]
    else:
        w = [rng.uniform(0.05, 1) for _ in range(k)]
    s = sum(w)
    p = [x / s for x in w]
    return p


def rand_table(rng: random.Random, shape: Sequence[int], k: int, mode: str) -> np.ndarray:
    n = int(np.prod(shape)) if shape else 1
    return np.array([rand_dist(rng, k, mode) for _ in range(n)]).reshape(list(shape) + [k])


def rand_domain(rng: random.Random, size: int, numeric: bool = False) -> List[Any]:
    pools: List[List[Any]] = [[0], [7], [-1.5], [0, 1], [-1, 1], [0, 1, 2], [-2, 0, 3], [10, 20, 30], [0.5, 1.5], [-1, 0, 1]]
    if not numeric:
        pools += [["only"], [False], ["a", "b"], ["no", "yes"], ["c", "e", "z"], ["left", "mid", "right"], [False, True]]
        pools += [["option_accepted", "option_accepted_later"], ["a long name, with a comma", "a long name, without"], ["accelerate_hard", "accelerate_mildly", "accelerate_not"]]
    pools = [p for p in pools if len(p) == size] or [list(range(size))]
    return list(rng.choice(pools))


def rand_order_edges(rng: random.Random, n: int, density: float, max_in: int) -> List[Tuple[int, int]]:
    """Edges of a random DAG over 0..n-1 in topological index order."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < density]
    rng.shuffle(pairs)
    out: List[Tuple[int, int]] = []
    indeg = [0] * n
    for i, j in pairs:
        if indeg[j] < max_in:
            out.append((i, j))
            indeg[j] += 1
    return out


STYLES_ANY = ["func", "kwfunc", "tab", "sfcpd", "pfunc", "func", "tab"]
STYLES_ROOT = ["dict", "dict", "func", "kwfunc", "tab", "const", "pdict", "sfcpd"]


def sortable(d: Sequence[Any]) -> bool:
    try:
        sorted(d)
        return True
    except TypeError:
        return False


def rand_spec(
    rng: random.Random,
    n: Tuple[int, int] = (2, 6),
    density: Optional[float] = None,
    max_in: int = 3,
    maxdom: int = 3,
    modes: Sequence[str] = ("free", "free", "coarse", "det", "sparse", "tiny"),
    numeric: Sequence[str] = (),
    connected: bool = False,
    numeric_all: bool = False,
    single: float = 0.05,
) -> Spec:
    """A chance-only network; a variable has a single outcome with probability `single`."""
    s = Spec()
    k = rng.randint(*n)
    pool = list(rng.choice(NAME_POOLS))
    rng.shuffle(pool)
    names = pool[:k]
    dens = density if density is not None else rng.choice([0.15, 0.35, 0.5, 0.7, 0.9])
    pairs = rand_order_edges(rng, k, dens, max_in)
    if connected:
        comp = list(range(k))
        for i, j in pairs:
            a, b = comp[i], comp[j]
            comp = [a if c == b else c for c in comp]
        for j in range(1, k):
            if comp[j] != comp[0]:
                i = rng.choice([x for x in range(k) if comp[x] == comp[0]])
                u, v = (i, j) if i < j else (j, i)
                pairs.append((u, v))
                a, b = comp[0], comp[j]
                comp = [a if c == b else c for c in comp]
    rng.shuffle(pairs)
    s.edges = [(names[i], names[j]) for i, j in pairs]
    order = list(names)
    rng.shuffle(order)
    s.nodes = order
    for v in s.nodes:
        size = rng.randint(2, maxdom) if rng.random() >= single else 1
        s.dom[v] = rand_domain(rng, size, numeric=numeric_all)
    for v in s.nodes:
        pa = s.parents(v)
        s.tables[v] = rand_table(rng, [len(s.dom[p]) for p in pa], len(s.dom[v]), rng.choice(list(modes)))
        s.style[v] = rng.choice(STYLES_ANY if pa else STYLES_ROOT)
    fix_domains(rng, s)
    return s


def fix_domains(rng: random.Random, s: Spec) -> None:
    """Domains declared explicitly may come in any order; inferred ones are sorted and hold only possible values."""
    for v in s.nodes:
        st = s.style.get(v)
        if st in ("tab", "sfcpd", "const", "list"):
            perm = list(range(len(s.dom[v])))
            if rng.random() < 0.5:
                rng.shuffle(perm)
        else:
            perm = sorted(range(len(s.dom[v])), key=lambda i: s.dom[v][i])
        s.dom[v] = [s.dom[v][i] for i in perm]
        if st in ("func", "kwfunc", "pfunc"):
            # a value no parent assignment mentions is not in an inferred domain: make every value possible
            t = s.tables[v].reshape(-1, len(s.dom[v]))
            for k in range(t.shape[1]):
                if t[:, k].max() <= 0:
                    r = rng.randrange(t.shape[0])
                    t[r] = (t[r] + np.eye(t.shape[1])[k] * max(1e-3, t[r].max())) / (t[r].sum() + max(1e-3, t[r].max()))
            s.tables[v] = t.reshape(s.tables[v].shape)


def rand_diagram(
    rng: random.Random,
    kind: str = "cid",
    n: Tuple[int, int] = (3, 6),
    agents: int = 1,
    decs: Tuple[int, int] = (1, 1),
    utils: Tuple[int, int] = (1, 2),
    maxdom: int = 2,
    max_in: int = 3,
    density: Optional[float] = None,
    modes: Sequence[str] = ("free", "free", "coarse", "det"),
    max_rules: int = 64,
    dec_domains: Optional[Callable[[random.Random], List[Any]]] = None,
    util_leaf: bool = True,
    connected: bool = True,
    labels: Sequence[Any] = (0, 1, 2, 3),
    recall: bool = False,
    policies: float = 0.0,
    styles: bool = True,
) -> Optional[Spec]:
    """An influence diagram with numeric utilities. Returns None when the draw does not fit the limits."""
    s = rand_spec(rng, n=n, density=density, max_in=max_in, maxdom=maxdom, modes=modes, connected=connected)
    s.kind = kind
    leaves = [v for v in s.nodes if not any(a == v for a, _ in s.edges)]
    inner = [v for v in s.nodes if v not in leaves]
    rng.shuffle(leaves)
    rng.shuffle(inner)
    labels = list(labels)[:agents]
    for a in labels:
        s.agents[a] = {"D": [], "U": []}
    for a in labels:
        for _ in range(rng.randint(*utils)):
            cand = leaves or ([] if util_leaf else inner)
            if not cand:
                break
            s.agents[a]["U"].append(cand.pop())
    pool = inner + ([] if util_leaf else leaves)
    pool = [v for v in pool if v not in s.utilities]
    want = {a: rng.randint(*decs) for a in labels}
    for a in labels:
        for _ in range(want[a]):
            if not pool:
                return None
            s.agents[a]["D"].append(pool.pop())
    if any(not s.agents[a]["U"] for a in labels):
        return None
    if recall:
        add_recall(s)
    for v in s.nodes:
        if v in s.utilities:
            s.dom[v] = rand_domain(rng, rng.randint(2, max(2, maxdom)) if rng.random() >= 0.04 else 1, numeric=True)
            if rng.random() < 0.3:
                s.dom[v] = sorted(rng.sample(range(-9, 10), len(s.dom[v])))
        if v in s.decisions:
            s.style[v] = "list"
            if dec_domains:
                s.dom[v] = dec_domains(rng)
    for v in s.nodes:
        pa = s.parents(v)
        s.tables[v] = rand_table(rng, [len(s.dom[p]) for p in pa], len(s.dom[v]), rng.choice(list(modes)))
        if v not in s.decisions:
            s.style[v] = rng.choice(STYLES_ANY if pa else STYLES_ROOT)
            if not styles:
                s.style[v] = "tab"
    fix_domains(rng, s)
    for d in s.decisions:
        rules = len(s.dom[d]) ** int(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1]))
        if rules > max_rules:
            return None
        if rng.random() < policies:
            s.style[d] = rng.choice(["func", "tab", "sfcpd"])
            if s.style[d] == "func":
                fix_domains(rng, s)
        else:
            s.nopolicy.add(d)
    return s


def scale_utilities(rng: random.Random, s: Spec, factors: Sequence[float] = (1e-7, 1e-6, 1e-6, 1e-5, 1e4)) -> None:
    """The same diagram at other stakes."""
    f = rng.choice(list(factors))
    for u in s.utilities:
        s.dom[u] = [float(x) * f for x in s.dom[u]]


def ring(rng: random.Random, kind: str) -> Spec:
    """Agents in a ring, each of whose utility depends on its own and the next agent's decision (relevance: one long
    cycle), with random further edges and chance nodes."""
    s = Spec()
    s.kind = kind
    k = rng.randint(3, 4)
    pool = [x for x in rng.choice(NAME_POOLS)]
    rng.shuffle(pool)
    ds, us, xs = pool[:k], pool[k : 2 * k], pool[2 * k : 2 * k + rng.randint(0, 2)]
    if rng.random() < 0.25 and k == 4:
        ds, us = ds[:3], us[:3]
        k = 3
    labels = [[0, 1, 2, 3], ["x", "y", "z", "w"], [3, 2, 1, 0]][rng.randrange(3)]
    closed = rng.random() < 0.8
    edges = [(ds[i], us[i]) for i in range(k)] + [(ds[(i + 1) % k], us[i]) for i in range(k if closed else k - 1)]
    for x in xs:
        for y in rng.sample(ds + us, rng.randint(1, 3)):
            edges.append((x, y))
    for i in range(k):
        for j in range(i + 1, k):
            if rng.random() < 0.15:
                edges.append((ds[i], ds[j]))
    rng.shuffle(edges)
    s.edges = edges
    s.nodes = ds + us + xs
    rng.shuffle(s.nodes)
    s.agents = {labels[i]: {"D": [ds[i]], "U": [us[i]]} for i in range(k)}
    s.nopolicy = set(ds)
    for v in s.nodes:
        s.dom[v] = [0, 1]
    return s


def stretch(rng: random.Random, s: Spec, times: int, into: Optional[Sequence[str]] = None) -> List[str]:
    """Put variables that copy their parent on some edges: the same model with longer paths. `into` limits the heads."""
    made: List[str] = []
    go_on = rng.random() < 0.6  # all on one edge, so that some path becomes really long
    for _ in range(times):
        cand = [i for i, (a, b) in enumerate(s.edges) if into is None or b in into]
        if not cand:
            break
        on = [i for i in cand if made and s.edges[i][0] == made[-1]]
        i = on[0] if on and go_on else rng.choice(cand)
        a, b = s.edges[i]
        k = 1
        while f"m{k}" in s.nodes:
            k += 1
        v = f"m{k}"
        s.edges[i] = (v, b)
        s.edges.insert(rng.randint(0, len(s.edges)), (a, v))
        s.nodes.insert(rng.randint(0, len(s.nodes)), v)
        s.style[v] = rng.choice(["tab", "sfcpd"]) if not sortable(s.dom[a]) or sorted(s.dom[a]) != list(s.dom[a]) else rng.choice(["func", "tab", "sfcpd", "kwfunc"])
        s.dom[v] = list(s.dom[a])
        s.tables[v] = np.eye(len(s.dom[a]))
        made.append(v)
    return made


def sprout(rng: random.Random, s: Spec, p: float = 0.2) -> bool:
    """Sometimes hang variables that influence nothing else (or only each other) below utilities, decisions, others."""
    if rng.random() >= p:
        return False
    for k in range(rng.choice([1, 1, 2])):
        v = f"s{k}"
        if v in s.nodes or not s.nodes:
            break
        pool = s.utilities * 3 + s.decisions + s.nodes
        above = [rng.choice(pool)]
        if rng.random() < 0.3:
            above = list(dict.fromkeys([*above, rng.choice(s.nodes)]))
        s.nodes.insert(rng.randint(0, len(s.nodes)), v)
        for a in above:
            s.edges.insert(rng.randint(0, len(s.edges)), (a, v))
        s.dom[v] = [0, 1]
        s.style[v] = "tab"
        s.tables[v] = rand_table(rng, [len(s.dom[a]) for a in s.parents(v)], 2, "free")
    return True


def lengthen(rng: random.Random, s: Spec, p: float = 0.25, keep_recall: bool = False, cap: float = 2000) -> bool:
    """Sometimes stretch some paths (unless that could cost an agent its recall: those into decisions) up to `cap` states."""
    if rng.random() >= p or not s.edges:
        return False
    before = len(s.nodes)
    times = rng.choice([2, 3, 4])
    worst = max(len(d) for d in s.dom.values()) if s.dom else 1
    while times and float(np.prod([len(d) for d in s.dom.values()], dtype=float)) * worst**times > cap:
        times -= 1
    stretch(rng, s, times, [v for v in s.nodes if v not in s.decisions] if keep_recall else None)
    return len(s.nodes) > before


def tailed(rng: random.Random) -> Spec:
    """Sparse structure: a random oriented tree in which several colliders have long tails of descendants."""
    s = Spec()
    pool = list(rng.choice(NAME_POOLS))
    rng.shuffle(pool)
    k = rng.randint(3, 6)
    core, rest = pool[:k], pool[k:]
    edges: List[Tuple[str, str]] = []
    for i in range(1, k):  # mostly alternating directions along a path, so that every other node is a collider
        a, b = (core[i - 1], core[i]) if rng.random() < 0.8 else (rng.choice(core[:i]), core[i])
        edges.append((a, b) if (i % 2 == 1) != (rng.random() < 0.2) else (b, a))
    into = {v: sum(b == v for _, b in edges) for v in core}
    colliders = [v for v in core if into[v] > 1] or core
    while rest and rng.random() < 0.9:
        at = rng.choice(colliders)
        for _ in range(rng.randint(1, 3)):
            if rest:
                edges.append((at, rest[-1]))
                at = rest.pop()
    rng.shuffle(edges)
    s.edges = edges
    s.nodes = list(dict.fromkeys(x for e in rng.sample(edges, len(edges)) for x in e))
    s.dom = {v: [0, 1] for v in s.nodes}
    return s


def relay(rng: random.Random) -> Spec:
    """Decisions of one agent that learn of the earlier ones only through what these caused: sufficient recall
    without remembered choices, and an order of the decisions that no edge between two of them shows."""
    s = Spec()
    s.kind = "cid"
    pool = list(rng.choice(NAME_POOLS))
    rng.shuffle(pool)
    k = 2 if rng.random() < 0.6 else 3
    ds, us, seen, modes = [], [], [], ["det", "det", "coarse", "free"]
    for i in range(k):
        d, u = pool.pop(), pool.pop()
        ds.append(d)
        if seen:
            s.edges.append((seen[-1], d))
        elif rng.random() < 0.3:
            x = pool.pop()
            s.edges += [(x, d), (x, u)]
            s.dom[x], s.tables[x] = [0, 1], rand_table(rng, [], 2, "coarse")
        s.edges.append((d, u))
        if seen and rng.random() < 0.9:  # what it observes matters, too, so that the earlier decision prepares the later
            s.edges.append((seen[-1], u))
        us.append(u)
        if i < k - 1:
            at = d
            for _ in range(rng.choice([1, 1, 2])):
                x = pool.pop()
                s.edges.append((at, x))
                s.dom[x] = [0, 1] if k == 3 or rng.random() < 0.7 else [0, 1, 2]
                at = x
            seen.append(at)
    rng.shuffle(s.edges)
    s.nodes = ds + us + [v for v in s.dom if v not in ds]
    rng.shuffle(s.nodes)
    for d in ds:
        s.dom[d] = [0, 1] if k == 3 or rng.random() < 0.7 else [0, 1, 2]
    for u in us:
        s.dom[u] = sorted(rng.sample([-2, -1, 0, 1, 2, 3, 5], rng.choice([2, 3])))
    for v in s.nodes:
        s.style[v] = "tab"
        if v not in ds and v not in s.tables:
            s.tables[v] = rand_table(rng, [len(s.dom[q]) for q in s.parents(v)], len(s.dom[v]), rng.choice(modes))
    order = list(ds)
    rng.shuffle(order)
    s.agents = {0: {"D": order, "U": us}}
    s.nopolicy = set(ds)
    return s


def rounding_ties(rng: random.Random, kind: str = "cid") -> Spec:
    """One decision whose options pay off on sets of outcomes of a chance variable that are equally likely, though
    sums of the decimal probabilities differ in the last digits; ties are exact in the stated decimals."""
    s = Spec()
    s.kind = kind
    pool = list(rng.choice(NAME_POOLS))
    rng.shuffle(pool)
    x, d, u, o, d2 = pool[:5]
    while True:
        k = rng.randint(4, 6)
        w = [rng.randint(1, 5) for _ in range(k)]
        tot = rng.choice([10, 20, 100])
        w[-1] += tot - sum(w)
        if w[-1] <= 0:
            continue
        by: Dict[int, List[Tuple[int, ...]]] = {}
        for r in range(1, k):
            for c in itertools.combinations(range(k), r):
                by.setdefault(sum(w[i] for i in c), []).append(c)
        rich = [v for v in by.values() if len(v) >= 3]
        if rich:
            break
    n = rng.randint(2, 4)
    same = rng.choice(rich)
    sets = [rng.choice(same) for _ in range(n)]
    if rng.random() < 0.3:
        sets[rng.randrange(n)] = rng.choice(rng.choice(list(by.values())))
    lo, hi = rng.choice([(0, 1), (-1, 1), (0, 0.1), (0.1, 0.7), (-3, 2), (0, 1000)])
    p = [a / tot for a in w]
    s.edges = [(x, u), (d, u)]
    s.nodes = [x, d, u]
    s.dom = {x: list(range(k)), d: list(range(n)), u: [lo, hi]}
    if rng.random() < 0.5:
        rng.shuffle(s.dom[d])
    t = np.zeros((k, n, 2))
    for i in range(k):
        for j in range(n):
            t[i, j, int(i in sets[j])] = 1.0
    s.tables = {x: np.array(p), u: t}
    if rng.random() < 0.5 and n <= 3:  # an observation that says nothing
        s.nodes.append(o)
        s.edges.append((o, d))
        s.dom[o] = [0, 1]
        s.tables[o] = np.array(rng.choice([[0.5, 0.5], [0.3, 0.7], [0.9, 0.1]]))
    s.agents = {0: {"D": [d], "U": [u]}}
    rng.shuffle(s.nodes)
    for v in s.nodes:
        s.style[v] = "list" if v == d else rng.choice(["dict", "tab", "func"] if v != u else ["func", "sfcpd", "tab"])
    s.nopolicy = {d}
    return s


def coordinate(rng: random.Random, s: Spec, u: str) -> None:
    """Make a utility pay for matching: a high value, depending on which, when its parents agree (by position)."""
    pa = s.parents(u)
    if len(pa) < 2 or any(a == u for a, _ in s.edges):
        return
    vals = sorted(rng.sample([0, 1, 2, 4, 5, 8, 10], 3))
    s.dom[u] = vals if rng.random() < 0.5 or s.style[u] in ("func", "kwfunc", "pfunc") else rng.sample(vals, 3)
    shape = [len(s.dom[p]) for p in pa]
    flip = [rng.random() < 0.3 for _ in pa]
    t = np.zeros(shape + [3])
    for idx in np.ndindex(*shape):
        at = {(n - 1 - i if f else i) for i, n, f in zip(idx, shape, flip)}
        pay = vals[0] if len(at) > 1 else vals[1 + min(at.pop(), 1)]
        t[idx + (s.dom[u].index(pay),)] = 1.0
    s.tables[u] = t
    if s.style[u] in ("dict", "pdict", "const"):
        s.style[u] = "tab"
    seen = set(t.reshape(-1, 3).argmax(axis=1))
    if s.style[u] in ("func", "kwfunc", "pfunc") and len(seen) < 3:
        s.style[u] = "tab"


def team(rng: random.Random) -> Spec:
    """One agent, two or three decisions and a chance variable that meet in one utility with a payoff for every
    combination: what is best for one of them depends on all the others."""
    s = Spec()
    s.kind = "cid"
    pool = list(rng.choice(NAME_POOLS))
    rng.shuffle(pool)
    k = rng.choice([2, 2, 3])
    ds, x, u, z = pool[:k], pool[k], pool[k + 1], pool[k + 2]
    edges = [(d, u) for d in ds] + [(x, u)]
    edges += [(a, b) for i, a in enumerate(ds) for b in ds[i + 1 :] if rng.random() < (0.5 if k == 2 else 0.25)]
    if rng.random() < 0.4:
        edges.append((z, x))
        if rng.random() < 0.5:
            edges.append((z, rng.choice(ds)))
    if rng.random() < 0.2:
        edges.append((x, rng.choice(ds)))
    rng.shuffle(edges)
    s.edges = edges
    s.nodes = list(dict.fromkeys(v for e in edges for v in e))
    rng.shuffle(s.nodes)
    s.agents = {0: {"D": rng.sample(ds, k), "U": [u]}}
    s.nopolicy = set(ds)
    for v in s.nodes:
        s.dom[v] = rand_domain(rng, 2)
        s.style[v] = "list" if v in ds else "tab"
    shape = [len(s.dom[p]) for p in s.parents(u)]
    n = int(np.prod(shape))
    s.dom[u] = rng.sample(range(-n, 2 * n), n)
    for v in s.nodes:
        if v != u:
            s.tables[v] = rand_table(rng, [2] * len(s.parents(v)), 2, "free")
    order = rng.sample(range(n), n)
    if rng.random() < 0.6:  # the best combination needs choices that are bad when the chance variable is against them
        at = order.index(int(np.argmax(s.dom[u])))
        idx = list(np.unravel_index(at, shape))
        ax = s.parents(u).index(x)
        idx[ax] = 1 - idx[ax]
        low, other = int(np.argmin(s.dom[u])), int(np.ravel_multi_index(idx, shape))
        there = order.index(low)
        order[there], order[other] = order[other], low
        s.dom[u] = [2 * v if i == low else v for i, v in enumerate(s.dom[u])] if min(s.dom[u]) < 0 else s.dom[u]
    s.tables[u] = np.eye(n)[order].reshape(shape + [n])
    return s


def add_recall(s: Spec) -> None:
    """Perfect recall: each later decision of an agent observes its earlier ones and what they observed."""
    topo = topo_order(s)
    for a, x in s.agents.items():
        ds = sorted(x["D"], key=topo.index)
        for i, d in enumerate(ds):
            for e in ds[:i]:
                for p in s.parents(e) + [e]:
                    if (p, d) not in s.edges and p != d:
                        s.edges.append((p, d))


def topo_order(s: Spec) -> List[str]:
    out: List[str] = []
    left = list(s.nodes)
    while left:
        for v in left:
            if all(p in out for p in s.parents(v)):
                out.append(v)
                left.remove(v)
                break
        else:
            raise ValueError("cyclic")
    return out


def retry(rng: random.Random, f: Callable[..., Optional[Spec]], tries: int = 200, longer: float = 0.0, cap: float = 2000, **kw: Any) -> Spec:
    for _ in range(tries):
        s = f(rng, **kw)
        if s is not None:
            if longer:
                lengthen(rng, s, longer, bool(kw.get("recall")), cap)
                if float(np.prod([len(d) for d in s.dom.values()], dtype=float)) * 2 <= cap:
                    sprout(rng, s, longer)
            return s
    raise NoSpec("generator could not satisfy its limits")


# -- building live objects --------------------------------------------------------------------------------------
def row_lookup(s: Spec, v: str) -> Dict[Tuple[Any, ...], Dict[Any, float]]:
    pa = s.parents(v)
    out = {}
    for idx in itertools.product(*[range(len(s.dom[p])) for p in pa]):
        key = tuple(s.dom[p][i] for p, i in zip(pa, idx))
        out[key] = {o: float(x) for o, x in zip(s.dom[v], s.tables[v][idx])}
    return out


def partial_row(rng: random.Random, row: Dict[Any, float]) -> Dict[Any, Any]:
    """Leave out outcomes whose mass the library must restore by spreading the rest evenly."""
    items = list(row.items())
    groups: Dict[float, List[Any]] = {}
    for o, p in items:
        groups.setdefault(round(p, 12), []).append(o)
    drop = rng.choice(list(groups.values()))
    return {o: p for o, p in items if o not in drop}


class _Callable:
    """A mechanism given by an object: callable itself, and by one of its methods."""

    def __init__(self, f: Callable[..., Any]) -> None:
        self.f = f

    def __call__(self, **pv: Any) -> Any:
        return self.f(**pv)

    def method(self, **pv: Any) -> Any:
        return self.f(**pv)


def dress(rng: random.Random, f: Callable[..., Any]) -> Tuple[Callable[..., Any], str]:
    """The same mechanism as another kind of callable."""
    form = rng.choice(["object", "method", "partial", "cached"])
    if form == "object":
        return _Callable(f), form
    if form == "method":
        return _Callable(f).method, form
    if form == "partial":
        return functools.partial(f), form
    return functools.lru_cache(maxsize=None)(f), form


def make_relationship(rng: random.Random, s: Spec, v: str, model: Any) -> Any:
    from pgmpy.factors.discrete import TabularCPD
    from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD

    st = s.style[v]
    pa = s.parents(v)
    if v in s.nopolicy:
        if st == "domobj":
            return DecisionDomain(v, model, list(s.dom[v]))
        return list(s.dom[v])
    rows = row_lookup(s, v)
    if st == "tab":
        order = list(range(len(pa)))
        rng.shuffle(order)
        t = np.transpose(s.tables[v], order + [len(pa)])
        vals = t.reshape(-1, len(s.dom[v])).T
        names = {v: list(s.dom[v])}
        names.update({p: list(s.dom[p]) for p in pa})
        ev = [pa[i] for i in order]
        return TabularCPD(
            v, len(s.dom[v]), vals, evidence=ev or None, evidence_card=[len(s.dom[p]) for p in ev] or None, state_names=names
        )
    if st in ("dict", "pdict", "const"):
        row = rows[()]
        items = list(row.items())
        rng.shuffle(items)
        d: Dict[Any, Any] = dict(items)
        if st == "const":
            keep = partial_row(rng, d) if rng.random() < 0.5 else d
            return ConstantCPD(v, keep, model, domain=list(s.dom[v]))
        if st == "pdict":
            keep = partial_row(rng, d)
            return {o: (d[o] if o in keep else None) for o in d}
        return d
    seed = rng.random()

    def answer(key: Tuple[Any, ...]) -> Any:
        row = rows[key]
        items = list(row.items())
        r = random.Random(f"{seed}{key}")
        r.shuffle(items)
        if max(row.values()) == 1.0 and r.random() < 0.7:
            return [o for o, p in items if p == 1.0][0]
        if st == "sfcpd" and r.random() < 0.5:
            items = list(partial_row(r, dict(items)).items())
            if not items:
                items = list(row.items())
        if st == "pfunc":
            return {o: (p if o in partial_row(r, row) else None) for o, p in items} if r.random() < 0.3 else dict(items)
        return dict(items)

    if st == "pfunc":
        # restore consistency: draw the partial row once
        cache = {}
        for key, row in rows.items():
            r = random.Random(f"{seed}{key}p")
            keep = partial_row(r, row)
            cache[key] = keep if keep else dict(row)
        mentioned = set().union(*[set(c) for c in cache.values()])
        if mentioned != set(s.dom[v]):
            cache[next(iter(cache))] = dict(rows[next(iter(cache))])
            mentioned = set().union(*[set(c) for c in cache.values()])
        if mentioned != set(s.dom[v]):
            cache = {k: dict(r_) for k, r_ in rows.items()}

        def answer(key: Tuple[Any, ...]) -> Any:  # noqa: F811
            return dict(cache[key])

    if st == "func" or (st in ("sfcpd", "pfunc") and rng.random() < 0.5):
        if all(p.isidentifier() for p in pa):
            args = list(pa)
            rng.shuffle(args)
            f = eval(f"lambda {', '.join(args)}: _a(({''.join(p + ',' for p in pa)}))", {"_a": answer})
        else:
            f = lambda **pv: answer(tuple(pv[p] for p in pa))  # noqa: E731
    else:
        f = lambda **pv: answer(tuple(pv[p] for p in pa))  # noqa: E731
    if rng.random() < 0.06:
        f, _ = dress(rng, f)
    if st == "sfcpd":
        return StochasticFunctionCPD(v, f, model, domain=list(s.dom[v]))
    return f


def add_latents(rng: random.Random, s: Spec, chance: float = 0.1) -> Spec:
    if len(s.nodes) > 1 and rng.random() < chance:
        s.latents = set(rng.sample(s.nodes, rng.randint(1, min(2, len(s.nodes) - 1))))
    return s


def make_structure(s: Spec) -> Any:
    import pycid

    more: Dict[str, Any] = {"latents": set(s.latents)} if s.latents else {}
    if s.kind == "cbn":
        m = pycid.CausalBayesianNetwork(list(s.edges), **more)
    elif s.kind == "cid":
        (x,) = s.agents.values()
        m = pycid.CID(list(s.edges), decisions=list(x["D"]), utilities=list(x["U"]), **more)
    else:
        cls = pycid.MACID if s.kind == "macid" else pycid.MACIDBase
        m = cls(
            list(s.edges),
            agent_decisions={a: list(x["D"]) for a, x in s.agents.items()},
            agent_utilities={a: list(x["U"]) for a, x in s.agents.items()},
            **more,
        )
    m.add_nodes_from([v for v in s.nodes if v not in m.nodes])
    return m


def build(rng: random.Random, s: Spec, order: Optional[Sequence[str]] = None, m: Any = None) -> Any:
    """Build the live model: mechanisms are added in a random order, one call or many."""
    m = m if m is not None else make_structure(s)
    left = list(order) if order is not None else rng.sample(s.nodes, len(s.nodes))
    # objects that need their parents' domains at construction time come after them
    eager = {v for v in s.nodes if s.style[v] in ("sfcpd", "const", "domobj")}
    done: List[str] = []
    one_call = rng.random() < 0.4
    while left:
        ready = [v for v in left if v not in eager or all(defined(m, p) for p in s.parents(v))]
        if not ready:
            raise RuntimeError("no CPD can be added")
        if one_call:
            batch = [v for v in ready if v not in eager] or ready[:1]
        else:
            batch = ready[:1]
        rels = {v: make_relationship(rng, s, v, m) for v in batch}
        cpds = [r for r in rels.values() if hasattr(r, "variable") and rng.random() < 0.5]
        kw = {v: r for v, r in rels.items() if not any(r is c for c in cpds)}
        m.add_cpds(*cpds, **kw)
        done += batch
        left = [v for v in left if v not in batch]
    return m


def defined(m: Any, v: str) -> bool:
    return v in m.model.domain


# -- reading live objects ---------------------------------------------------------------------------------------
def factor_dict(f: Any) -> Dict[Tuple[Any, ...], float]:
    """pgmpy factor -> {((variable, outcome), ...) sorted by variable: probability}."""
    vs = list(f.variables)
    out = {}
    for idx, p in np.ndenumerate(np.asarray(f.values)):
        key = tuple(sorted(((v, f.state_names[v][i]) for v, i in zip(vs, idx)), key=lambda t: t[0]))
        out[key] = float(p)
    return out


def ref_dict(net: Net, query: Sequence[str], p: np.ndarray) -> Dict[Tuple[Any, ...], float]:
    out = {}
    for idx, x in np.ndenumerate(p):
        key = tuple(sorted(((v, net.dom[v][i]) for v, i in zip(query, idx)), key=lambda t: t[0]))
        out[key] = float(x)
    return out


def same_dist(a: Mapping[Any, float], b: Mapping[Any, float], tol: float = 1e-8) -> bool:
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= tol for k in a)


def cpd_to_table(m: Any, v: str, parents: Sequence[str], dom: Mapping[str, Sequence[Any]]) -> Optional[np.ndarray]:
    """The live table of v as an array over (parents..., v) indexed by the outcomes of `dom`."""
    f = m.get_cpds(v)
    return None if f is None else factor_table(f, v, parents, dom)


def factor_table(f: Any, v: str, parents: Sequence[str], dom: Mapping[str, Sequence[Any]]) -> np.ndarray:
    """A table or decision rule as an array over (parents..., v) indexed by the outcomes of `dom`."""
    vs = list(f.variables)
    if set(vs) != set(parents) | {v}:
        raise ValueError(f"CPD of {v} is over {vs}, graph parents are {list(parents)}")
    arr = np.asarray(f.values)
    arr = np.transpose(arr, [vs.index(x) for x in list(parents) + [v]])
    for ax, x in enumerate(list(parents) + [v]):
        names = list(f.state_names.get(x, dom[x]))  # a rule not yet installed may name only its own outcomes
        if len(names) != arr.shape[ax] or set(names) != set(dom[x]):
            raise ValueError(f"CPD of {v}: outcomes of {x} are {names}, expected {list(dom[x])}")
        arr = np.take(arr, [names.index(o) for o in dom[x]], axis=ax)
    return arr


def net_from_model(m: Any) -> Net:
    """Reference network read off the live model's compiled tables (for monitors on models the harness did not make)."""
    dom = {v: list(m.get_cpds(v).state_names[v]) for v in m.nodes}
    parents = {v: list(m.get_parents(v)) for v in m.nodes}
    return Net(dom, parents, {v: cpd_to_table(m, v, parents[v], dom) for v in m.nodes})
