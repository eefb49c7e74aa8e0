"""C20: random graphs and diagrams satisfy every requested constraint, or are refused within the stated attempts."""
from __future__ import annotations

import random
from typing import Any, Callable, Dict, List, Sequence, Tuple

import numpy as np

from rv.common import make_cases, rng_of, seed_globals
from rv.monitor import say
from rv.ref import Diagram, Graph

RULE = (
    "random_dag, random_macidbase, random_macid, random_cid, random_cids and random_macids under random parameters: 1 to 16 nodes, "
    "densities from 0 to 1, in-degree limits from 1 to 5 and none, zero to three agents, decisions and utilities (zero included), recall and mechanisms "
    "on and off, comfortable, tight and impossible requests, several random states each. Distinct by parameters and graph."
)
ASSUMPTIONS = ["a request is called comfortable when thousands of attempts on small graphs make a refusal practically impossible"]
TECHNIQUE = "runtime monitor on the generated graphs with a budget on random draws counted by hooks"
MIN_EVENTS = {"arguments_left_out": 300, 
    "dags": 900, "density_bound_by_degree": 60, "tree_above_density": 160, "single_node": 8, "diagrams": 700, "refused": 80, "recall_requested": 240, "recall_several_decisions": 120,
    "mechanisms_requested": 180, "tables_checked": 1000, "comfortable": 120, "impossible_refused": 50, "agents_2plus": 300, "lists": 24, "no_utility_or_decision": 60,
}
CASE_CPU = 100
DRAWS = 600_000


class TooManyDraws(Exception):
    pass


class budget:
    """Counts calls into the random module and numpy's global generator; stops a generator that draws without end."""

    NAMES = ("random", "choice", "choices", "sample", "randint", "randrange", "shuffle", "uniform")
    NP = ("shuffle", "choice", "randint", "rand", "random", "permutation")

    def __init__(self, limit: int = DRAWS):
        self.n = 0
        self.limit = limit

    def wrap(self, f: Callable[..., Any]) -> Callable[..., Any]:
        def g(*a: Any, **k: Any) -> Any:
            self.n += 1
            if self.n > self.limit:
                raise TooManyDraws()
            return f(*a, **k)

        return g

    def __enter__(self) -> "budget":
        self.saved = [(o, x, getattr(o, x)) for o, xs in ((random, self.NAMES), (np.random, self.NP)) for x in xs]
        for o, x, f in self.saved:
            setattr(o, x, self.wrap(f))
        return self

    def __exit__(self, *a: Any) -> None:
        for o, x, f in self.saved:
            setattr(o, x, f)


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 6 if tier == "quick" else 90
    return make_cases(seed, dag=220 * k, single=10, base=130 * k, macid=110 * k, cid=130 * k, comfortable=70 * k, impossible=50 * k, attempts=40 * k, lists=18 * k)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C20", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "dag":
        for _ in range(3):
            dag(rng, m)
    elif kind == "single":
        single(rng, m)
    elif kind in ("base", "macid", "cid"):
        diagram(rng, kind, m)
    elif kind == "comfortable":
        comfortable(rng, m)
    elif kind == "impossible":
        impossible(rng, m)
    elif kind == "attempts":
        attempts(rng, m)
    else:
        lists(rng, m)


def bounded(m: Any, f: Callable[..., Any], params: Dict[str, Any], refusal_ok: bool) -> Any:
    """The generator's result, or None when it was refused with a ValueError."""
    try:
        with budget() as b:
            out = f(**params)
        m.event("draws", b.n)
        return out
    except TooManyDraws:
        m.require(False, "draws-without-end", f"{f.__name__}({params}) made more than {DRAWS} random draws", params)
    except ValueError as e:
        m.event("refused")
        m.require(refusal_ok, "refused-a-possible-request", f"{f.__name__}({params}) failed: {say(e)}", params)
    return None


def reachable(n: int, deg: int) -> int:
    return sum(min(i, deg) for i in range(n))


def check_graph(m: Any, g: Graph, n: int, deg: int, params: Any) -> None:
    wit = lambda: {"params": params, "edges": g.edges()}  # noqa: E731
    m.require(len(g.nodes) == n, "number-of-nodes", f"{len(g.nodes)} nodes instead of {n}", wit)
    m.require(g.acyclic(), "cyclic", "the random graph has a cycle", wit)
    m.require(all(g.connected(g.nodes[0], v) for v in g.nodes[1:]), "not-connected", "the random graph is not connected", wit)
    worst = max([len(g.pa[v]) for v in g.nodes] or [0])
    m.require(worst <= deg, "in-degree", f"a node has {worst} parents, at most {deg} were requested", wit)


def dag(rng: Any, m: Any) -> None:
    import pycid

    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 16])
    deg = rng.choice([1, 2, 3, 4, 5, max(1, n)])
    dens = rng.choice([0.0, 0.1, 0.4, 0.5, 0.8, 0.95, 1.0, rng.random()])
    params = {"number_of_nodes": n, "edge_density": dens, "max_in_degree": deg}
    out = bounded(m, pycid.random_dag, params, False)
    g = Graph(list(out.nodes), list(out.edges))
    m.event("dags")
    m.event("single_node", int(n == 1))
    m.evaluated([params, sorted(g.edges())])
    check_graph(m, g, n, deg, params)
    want = min(int(dens * n * (n - 1) / 2), reachable(n, deg))
    m.event("density_bound_by_degree", int(want < int(dens * n * (n - 1) / 2)))
    m.event("tree_above_density", int(want < n - 1))
    have = len(g.edges())
    m.require(have >= want, "density-too-low", f"{have} edges, the requested density needs {want}", params)
    upper = max(n - 1, -(-dens * n * (n - 1) // 2))
    m.require(have <= upper, "density-too-high", f"{have} edges, the requested density and connection need {upper}", params)


def single(rng: Any, m: Any) -> None:
    import pycid

    u = rng.randint(0, 1)
    m.event("single_node")
    m.event("no_utility_or_decision")
    for f, k in (
        (pycid.random_cid, {"number_of_decisions": 0, "number_of_utilities": u}),
        (pycid.random_macid, {"agent_decisions_num": (0,), "agent_utilities_num": (u,)}),
        (pycid.random_macidbase, {"agent_decisions_num": (0,), "agent_utilities_num": (u,)}),
    ):
        params = {"number_of_nodes": 1, "add_cpds": rng.random() < 0.5, **k}
        model = bounded(m, f, params, False)
        m.evaluated([f.__name__, params])
        check_diagram(m, model, params, 1, (0,), (u,), params["add_cpds"], False, 4)


def request(rng: Any, kind: str) -> Dict[str, Any]:
    agents = 1 if kind == "cid" else rng.choice([1, 2, 2, 3])
    decs = tuple(rng.choice([0, 1, 1, 2, 3]) for _ in range(agents))
    utils = tuple(rng.choice([0, 1, 1, 1, 2]) if d == 0 else rng.choice([1, 1, 2]) for d in decs)
    low = sum(decs) + sum(utils)
    p: Dict[str, Any] = {
        "number_of_nodes": rng.randint(max(2, low), min(max(low, 14), low + 6)),
        "add_cpds": rng.random() < 0.3,
        "sufficient_recall": rng.random() < 0.5,
        "edge_density": rng.choice([0.0, 0.2, 0.3, 0.4, 0.4, 0.6]),
        "max_in_degree": rng.choice([1, 2, 3, 4, 4, 5]),
        "max_resampling_attempts": rng.choice([20, 100, 300]),
    }
    if kind == "cid":
        p.update(number_of_decisions=decs[0], number_of_utilities=utils[0])
    else:
        p.update(agent_decisions_num=decs, agent_utilities_num=utils)
    return p


DEFAULTS = {
    "cid": {"number_of_nodes": 8, "number_of_decisions": 1, "number_of_utilities": 1, "add_cpds": True, "sufficient_recall": False, "edge_density": 0.4, "max_in_degree": 4},
    "macid": {"number_of_nodes": 10, "agent_decisions_num": (1, 2), "agent_utilities_num": (2, 1), "add_cpds": False, "sufficient_recall": False, "edge_density": 0.4, "max_in_degree": 4},
}
DEFAULTS["base"] = DEFAULTS["macid"]


def generator(kind: str) -> Any:
    import pycid

    return {"cid": pycid.random_cid, "macid": pycid.random_macid, "base": pycid.random_macidbase}[kind]


def numbers(p: Dict[str, Any]) -> Tuple[Sequence[int], Sequence[int]]:
    if "number_of_decisions" in p:
        return (p["number_of_decisions"],), (p["number_of_utilities"],)
    return p["agent_decisions_num"], p["agent_utilities_num"]


def diagram(rng: Any, kind: str, m: Any) -> None:
    p = request(rng, kind)
    if rng.random() < 0.25:  # some arguments left to their defaults
        for a in list(p):
            if rng.random() < 0.5 and a in DEFAULTS[kind] and a not in ("agent_decisions_num", "agent_utilities_num", "number_of_decisions", "number_of_utilities", "number_of_nodes"):
                p[a] = DEFAULTS[kind][a]
                p.setdefault("left_out", []).append(a)
        if rng.random() < 0.2:
            p.update(DEFAULTS[kind])
            p["left_out"] = list(DEFAULTS[kind])
    left_out = p.pop("left_out", [])
    m.event("arguments_left_out", len(left_out))
    model = bounded(m, generator(kind), {a: x for a, x in p.items() if a not in left_out}, True)
    m.evaluated([kind, p, sorted(model.edges) if model else None])
    if model is not None:
        decs, utils = numbers(p)
        check_diagram(m, model, p, p["number_of_nodes"], decs, utils, p["add_cpds"], p["sufficient_recall"], p["max_in_degree"])


def check_diagram(m: Any, model: Any, params: Any, n: int, decs: Sequence[int], utils: Sequence[int], cpds: bool, recall: bool, deg: int) -> None:
    agents = {a: {"D": list(model.agent_decisions.get(a, [])), "U": list(model.agent_utilities.get(a, []))} for a in model.agents}
    g = Diagram(list(model.nodes), list(model.edges), agents)
    wit = lambda: {"params": params, "edges": g.edges(), "agents": {str(a): x for a, x in agents.items()}}  # noqa: E731
    m.event("diagrams")
    m.event("agents_2plus", int(len(decs) > 1))
    m.event("no_utility_or_decision", int(0 in list(decs) + list(utils)))
    check_graph(m, g, n, deg, params)
    m.require(len(agents) == len(decs), "number-of-agents", f"{len(agents)} agents instead of {len(decs)}", wit)
    have = sorted((len(x["D"]), len(x["U"])) for x in agents.values())
    m.require(have == sorted(zip(decs, utils)), "number-of-decisions-and-utilities", f"the agents have {have} decisions and utilities, requested {sorted(zip(decs, utils))}", wit)
    roles = g.decisions + g.utilities
    m.require(len(set(roles)) == len(roles) and set(roles) <= set(g.nodes), "roles", f"roles {roles} are not distinct nodes", wit)
    m.require(set(model.decisions) == set(g.decisions) and set(model.utilities) == set(g.utilities), "roles", "the role sets disagree with the agents' lists", wit)
    m.require(all(not g.ch[u] for u in g.utilities), "utility-with-children", "a utility influences another node", wit)
    for d in g.decisions:
        m.require(bool(g.own_utils(d)), "decision-without-utility", f"decision {d} has no downstream utility of its own agent", wit)
    dens = params.get("edge_density")
    if dens is not None:
        want = min(int(dens * n * (n - 1) / 2), reachable(n, deg))
        m.require(len(g.edges()) >= want, "density-too-low", f"{len(g.edges())} edges, the requested density needs {want}", wit)
    if recall:
        m.event("recall_requested")
        m.event("recall_several_decisions", int(max(decs) > 1))
        m.require(g.sufficient_recall(), "no-sufficient-recall", "sufficient recall was requested", wit)
    if not cpds:
        m.event("no_mechanisms_requested")
        have_m = [v for v in g.nodes if model.get_cpds(v) is not None]
        m.require(not have_m, "mechanisms-not-requested", f"{have_m} have mechanisms though none were asked for", wit)
        return
    m.event("mechanisms_requested")
    for v in g.nodes:
        c = model.get_cpds(v)
        m.require(c is not None and v in model.model.domain, "no-mechanism", f"{v} has no mechanism", wit)
        if v in g.decisions:
            m.require(list(model.model.domain[v]) == [0, 1], "decision-domain", f"decision {v} has the domain {model.model.domain[v]}, documented is [0, 1]", wit)
            continue
        t = np.asarray(c.values, dtype=float)
        vs = list(c.variables)
        m.event("tables_checked")
        m.require(set(vs) == set(g.pa[v]) | {v}, "mechanism-parents", f"the table of {v} is over {vs}, its parents are {g.pa[v]}", wit)
        s = t.sum(axis=vs.index(v))
        m.require(bool(np.all(t >= 0) and np.allclose(s, 1)), "mechanism-invalid", f"the table of {v} is no distribution", wit)
    m.require(bool(model.check_model()), "check-model", "check_model fails", wit)


def comfortable(rng: Any, m: Any) -> None:
    kind = rng.choice(["base", "macid", "cid"])
    n = rng.randint(6, 10)
    p: Dict[str, Any] = {"number_of_nodes": n, "sufficient_recall": rng.random() < 0.5, "edge_density": rng.choice([0.0, 0.2, 0.3]), "max_in_degree": rng.choice([4, 5])}
    if kind == "cid":
        p.update(number_of_decisions=rng.randint(0, 2), number_of_utilities=1, add_cpds=rng.random() < 0.2)
    else:
        k = rng.choice([1, 2])
        p.update(agent_decisions_num=(1,) * k, agent_utilities_num=(1,) * k, add_cpds=rng.random() < 0.2)
    if rng.random() < 0.3:
        p["max_resampling_attempts"] = 2000
    model = bounded(m, generator(kind), p, False)
    m.event("comfortable")
    m.evaluated(["comfortable", kind, p, sorted(model.edges)])
    check_diagram(m, model, p, n, *numbers(p), p["add_cpds"], p["sufficient_recall"], p["max_in_degree"])


def impossible(rng: Any, m: Any) -> None:
    """Requests no diagram satisfies; every generator must give up with a ValueError."""
    kind = rng.choice(["base", "macid", "cid", "dag"])
    n = rng.randint(2, 6)
    what = rng.choice(["utilities", "decisions", "no-utility", "degree", "agents", "dense"])
    p: Dict[str, Any] = {"number_of_nodes": n, "max_resampling_attempts": rng.choice([1, 5, 40])}
    d, u = 1, 1
    if what == "utilities":
        u = n + rng.randint(0, 1)  # at least one node is no sink
    elif what == "decisions":
        d = n
    elif what == "no-utility":
        u = 0
    elif what == "dense":
        # a complete graph has a single sink
        n = max(n, 3)
        p.update(number_of_nodes=n, edge_density=1.0, max_in_degree=n)
        u, d = 2, 0
    if what == "degree" or kind == "dag":
        what = "degree"
        p["max_in_degree"] = rng.choice([0, -1])
    if kind == "dag":
        p.pop("max_resampling_attempts")
        f = __import__("pycid").random_dag
    else:
        f = generator(kind)
        if kind == "cid":
            p.update(number_of_decisions=d, number_of_utilities=u)
        elif what == "agents":
            p.update(agent_decisions_num=(1, 1), agent_utilities_num=rng.choice([(1,), (1, 1, 1), ()]))
        else:
            p.update(agent_decisions_num=(d,), agent_utilities_num=(u,))
    if kind == "cid" and what == "agents":
        return
    out = bounded(m, f, p, True)
    m.evaluated(["impossible", kind, p])
    m.event("impossible_refused", int(out is None))
    m.require(out is None, "impossible-request-answered", f"{f.__name__}({p}) returned a diagram", lambda: {"params": p, "edges": sorted(out.edges)})


def attempts(rng: Any, m: Any) -> None:
    """No more graphs are drawn than the stated number of attempts (counted where random_dag can be hooked)."""
    import importlib

    mod = importlib.import_module("pycid.random.random_macidbase")
    orig = getattr(mod, "random_dag", None)
    kind = rng.choice(["base", "macid", "cid"])
    p = request(rng, kind)
    k = p["max_resampling_attempts"] = rng.choice([1, 2, 7])
    if rng.random() < 0.5:
        p["sufficient_recall"] = True
        p["max_in_degree"] = 2
    calls = [0]

    def counted(*a: Any, **kw: Any) -> Any:
        calls[0] += 1
        return orig(*a, **kw)  # type: ignore

    if orig is not None:
        mod.random_dag = counted  # type: ignore
    try:
        model = bounded(m, generator(kind), p, True)
    finally:
        if orig is not None:
            mod.random_dag = orig  # type: ignore
    m.evaluated(["attempts", kind, p, model is None])
    m.event("attempts_counted", calls[0])
    m.require(calls[0] <= k, "too-many-attempts", f"{calls[0]} graphs were drawn, the stated number of attempts is {k}", p)
    if model is not None:
        check_diagram(m, model, p, p["number_of_nodes"], *numbers(p), p["add_cpds"], p["sufficient_recall"], p["max_in_degree"])


def lists(rng: Any, m: Any) -> None:
    import pycid

    k = rng.choice([1, 2, 3])
    lo = rng.randint(7, 9)
    nodes, decs, utils = (lo, lo + rng.randint(0, 3)), (1, 2), (1, 2)
    dens = rng.choice([0.2, 0.3])
    many = rng.random() < 0.6  # agents with several decisions, which need recall
    if many:
        k, nodes, decs, dens = rng.choice([2, 4]), (12, 14), rng.choice([(1, 3), (2, 3)]), 0.25
    cpds, recall = rng.random() < 0.3, rng.random() < 0.6
    base = {"total_nodes_range": nodes, "num_decs_range": decs, "num_utils_range": utils, "add_cpds": cpds, "sufficient_recall": recall, "edge_density": dens}
    if rng.random() < 0.5:
        out = bounded(m, pycid.random_cids, {**base, "n_cids": k}, False)
        most = 1
    else:
        out = bounded(m, pycid.random_macids, {**base, "n_macids": k}, False)
        most = 3
    m.event("lists")
    m.require(len(out) == k, "number-of-diagrams", f"{len(out)} diagrams instead of {k}", base)
    for model in out:
        m.evaluated(["list", base, sorted(model.edges)])
        d, u, n = [len(x) for x in model.agent_decisions.values()], [len(x) for x in model.agent_utilities.values()], len(model.nodes)
        ok = 1 <= len(d) <= most and all(decs[0] <= x <= decs[1] for x in d) and all(utils[0] <= x <= utils[1] for x in u) and nodes[0] <= n <= nodes[1]
        m.require(ok, "out-of-range", f"{n} nodes, decisions {d}, utilities {u} for ranges {nodes}, {decs}, {utils}", base)
        # both list generators return only diagrams with sufficient recall
        check_diagram(m, model, {"edge_density": dens, **base}, n, d, u, cpds, True, 4)
