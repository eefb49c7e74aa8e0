"""C28: an argument taken as an iterable means the same in every form it may be given in."""
from __future__ import annotations

import collections
import random
from typing import Any, Callable, Dict, Iterator, List, Optional, Sequence, Tuple

import numpy as np

from rv import gen
from rv.checks.c26 import plain, same
from rv.common import make_cases, rand_context, rng_of, seed_globals
from rv.hooks import snapshot, snapshot_diff

RULE = (
    "random networks and diagrams (2 to 8 nodes; with mechanisms, policies and games where the question needs them); every public "
    "function with an iterable argument is asked with a list and with the same elements as tuple, set, frozenset, dictionary and its "
    "views, deque, generator, map, one-pass and re-iterable custom iterables, and a bare name where one is taken; empty, one-element "
    "and longer arguments, for plain, observed, intervened and partly parameterised models. Answers (values, tables, structures, games) "
    "and refusals must agree with those for the list. Distinct by diagram, request and form."
)
ASSUMPTIONS = ["forms without an order are compared only where the order of the elements has no meaning", "agent lists of a game keep their order"]
MIN_EVENTS = {
    "compared": 6000, "one_pass": 2000, "unordered": 900, "bare_name": 180, "empty": 350, "both_refused": 150,
    "on_models": 250, "on_queries": 300, "on_reachability": 1000, "on_games": 100, "on_policies": 200, "on_mechanisms": 80,
}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 14
    return make_cases(seed, build=60 * k, graph=130 * k, query=50 * k, policy=40 * k, game=30 * k, mechanism=40 * k)


class Once:
    """Can be iterated once, and knows nothing else."""

    def __init__(self, xs: Sequence[Any]):
        self._it = iter(list(xs))

    def __iter__(self) -> Iterator[Any]:
        return self._it


class Again:
    """Can be iterated as often as one likes, and knows nothing else."""

    def __init__(self, xs: Sequence[Any]):
        self._xs = list(xs)

    def __iter__(self) -> Iterator[Any]:
        return iter(list(self._xs))


ORDERED: Dict[str, Callable[[List[Any]], Any]] = {
    "tuple": tuple, "deque": collections.deque, "dict": dict.fromkeys, "keys": lambda xs: dict.fromkeys(xs).keys(),
    "values": lambda xs: dict(enumerate(xs)).values(), "again": Again,
}
ONCE: Dict[str, Callable[[List[Any]], Any]] = {
    "iterator": iter, "generator": lambda xs: (x for x in xs), "map": lambda xs: map(lambda x: x, xs), "once": Once,
    "filter": lambda xs: filter(lambda x: True, xs), "reversed twice": lambda xs: reversed(xs[::-1]),
}
UNORDERED: Dict[str, Callable[[List[Any]], Any]] = {"set": set, "frozenset": frozenset}


def outcome(f: Callable[[], Any]) -> Any:
    try:
        return ["answered", plain(f())]
    except RecursionError:
        raise
    except Exception as e:  # noqa: BLE001
        return ["refused", type(e).__name__]


def agree(rng: random.Random, m: Any, what: Any, topic: str, name: str, xs: Sequence[Any], f: Callable[[Any], Any], order: bool = False, bare: bool = False, few: int = 4, sequence: bool = False) -> None:
    """f(list) against f(the same elements in other forms)."""
    xs = list(xs)
    want = outcome(lambda: f(list(xs)))
    forms: List[Tuple[str, Any]] = []
    if sequence:
        forms.append(("tuple", tuple(xs)))
    else:
        forms += [(n, ONCE[n](xs)) for n in rng.sample(sorted(ONCE), max(1, few // 2))]
        forms += [(n, ORDERED[n](xs)) for n in rng.sample(sorted(ORDERED), max(1, few - few // 2))]
        if not order:
            n = rng.choice(sorted(UNORDERED))
            forms.append((n, UNORDERED[n](xs)))
        if bare and len(xs) == 1:
            forms.append(("bare name", xs[0]))
    for n, arg in forms:
        m.evaluated([what, topic, name, xs, n])
        got = outcome(lambda: f(arg))
        m.event("compared")
        m.event(f"on_{topic}")
        if n in ONCE:
            m.event("one_pass")
        elif n in UNORDERED:
            m.event("unordered")
        elif n == "bare name":
            m.event("bare_name")
        if not xs:
            m.event("empty")
        if want[0] == got[0] == "refused":
            m.event("both_refused")
            continue
        m.expect(
            want[0] == got[0] and same(want[1], got[1]), f"differs-{name}",
            f"{name} of {xs} given as a {n} ends in {str(got)[:300]}, given as a list in {str(want)[:300]}", {"of": what},
        )


def structure(model: Any) -> Any:
    s = [type(model).__name__, sorted(model.nodes), sorted(model.edges)]
    if hasattr(model, "agent_decisions"):
        s += [{repr(a): list(x) for a, x in model.agent_decisions.items()}, {repr(a): list(x) for a, x in model.agent_utilities.items()},
              dict(model.decision_agent), dict(model.utility_agent)]
    return s


def tables(model: Any) -> Any:
    out = {}
    for v in sorted(model.nodes):
        c = model.get_cpds(v)
        out[v] = None if c is None else sorted((repr(k), p) for k, p in gen.factor_dict(c).items())
    return [[v, t] for v, t in out.items()]


def rule(c: Any) -> Any:
    return [c.variable, sorted([repr(k), float(p)] for k, p in gen.factor_dict(c).items())]


def pick(rng: random.Random, xs: Sequence[Any], most: int = 4) -> List[Any]:
    xs = list(xs)
    return rng.sample(xs, min(len(xs), rng.choice([0, 1, 1, 2, 2, 3, 4][: most + 3])))


def run_build(rng: random.Random, m: Any) -> None:
    import pycid
    from pycid.core.macid_base import MACIDBase

    kind = rng.choice(["cbn", "cid", "macid", "base"])
    s = gen.rand_spec(rng, n=(1, 8)) if kind == "cbn" else gen.retry(
        rng, gen.rand_diagram, longer=0.1, kind="cid" if kind == "cid" else "macid", n=(3, 8), agents=1 if kind == "cid" else rng.randint(1, 3), decs=(1, 2), max_rules=10**9, connected=rng.random() < 0.6)
    what = s.describe()
    cls = {"cbn": pycid.CausalBayesianNetwork, "cid": pycid.CID, "macid": pycid.MACID, "base": MACIDBase}[kind]
    D = {a: x["D"] for a, x in s.agents.items()}
    U = {a: x["U"] for a, x in s.agents.items()}
    rest: Dict[str, Any] = {}
    if kind == "cid":
        rest = {"decisions": s.decisions, "utilities": s.utilities}
    elif kind != "cbn":
        rest = {"agent_decisions": D, "agent_utilities": U}
    agree(rng, m, what, "models", f"{cls.__name__}:edges", s.edges, lambda e: structure(cls(e, **rest)))
    if kind == "cid":
        agree(rng, m, what, "models", "CID:decisions", s.decisions, lambda d: structure(cls(s.edges, decisions=d, utilities=s.utilities)), sequence=True)
        agree(rng, m, what, "models", "CID:utilities", s.utilities, lambda u: structure(cls(s.edges, decisions=s.decisions, utilities=u)), sequence=True)
    elif kind != "cbn":
        a = rng.choice(list(D))
        agree(rng, m, what, "models", f"{cls.__name__}:agent_decisions", D[a], lambda d: structure(cls(s.edges, {**D, a: d}, U)), sequence=True)
        agree(rng, m, what, "models", f"{cls.__name__}:agent_utilities", U[a], lambda u: structure(cls(s.edges, D, {**U, a: u})), sequence=True)

    def grown(how: str, xs: Any) -> Any:
        model = cls(s.edges, **rest)
        if how == "nodes":
            model.add_nodes_from(xs)
        else:
            model.add_edges_from(xs)
        return structure(model)

    new = [f"new{i}" for i in range(rng.randint(0, 3))]
    agree(rng, m, what, "models", f"{cls.__name__}:add_edges_from", [(rng.choice(s.nodes), x) for x in new], lambda xs: grown("edges", xs), few=3)


def run_graph(rng: random.Random, m: Any) -> None:
    from pycid.core import get_paths as gp
    from pycid.core.relevance_graph import RelevanceGraph

    kind = rng.choice(["cid", "macid", "macid"])
    s = gen.retry(rng, gen.rand_diagram, longer=0.1, kind=kind, n=(3, 8), agents=1 if kind == "cid" else rng.randint(1, 3), decs=(1, 3), max_rules=10**9,
                  connected=rng.random() < 0.7, util_leaf=rng.random() < 0.5, labels=(0,) if kind == "cid" else (0, 1, 2))
    model = gen.make_structure(s)
    what = s.describe()
    one, two = rng.choice(s.nodes), rng.choice(s.nodes)
    nodes, decs = pick(rng, s.nodes), pick(rng, s.decisions)
    g: Callable[..., None] = lambda *a, **k: agree(rng, m, what, "reachability", *a, **k)  # noqa: E731
    g("is_r_reachable:decisions", decs, lambda x: model.is_r_reachable(x, one), bare=True)
    g("is_r_reachable:nodes", nodes, lambda x: model.is_r_reachable(rng_first(decs, s.decisions), x), bare=True)
    g("is_r_reachable:nodes of several", nodes, lambda x: model.is_r_reachable(list(decs), x), few=2)
    g("is_s_reachable:first", decs, lambda x: model.is_s_reachable(x, s.decisions[0]), bare=True)
    g("is_s_reachable:second", decs, lambda x: model.is_s_reachable(s.decisions[-1], x), bare=True)
    g("is_s_reachable:second of several", decs, lambda x: model.is_s_reachable(list(s.decisions), x), few=2)
    g("relevance_graph", decs, lambda x: (lambda r: [sorted(r.nodes), sorted(r.edges), r.is_acyclic()])(RelevanceGraph(model, x)))

    def order(x: Any) -> Any:
        o = model.get_valid_order(x)
        return [sorted(o), [[a, b] for a, b in s.edges if a in o and b in o and o.index(a) > o.index(b)]]

    g("get_valid_order", nodes, order)
    obs = [x for x in pick(rng, s.nodes) if x not in (one, two)]
    g("active_trail_nodes:observed", obs, lambda x: {k: v for k, v in model.active_trail_nodes(one, x).items()}[one], bare=True)
    g("active_trail_nodes:keyword", obs, lambda x: model.active_trail_nodes(one, observed=x)[one], bare=True)
    starts = pick(rng, s.nodes, 2)
    agree(rng, m, what, "reachability", "active_trail_nodes:variables", starts, lambda x: sorted((k, sorted(v)) for k, v in model.active_trail_nodes(x, obs).items()), sequence=True)
    if kind == "macid":
        g("create_subgame:structure", decs, lambda x: (lambda sg: [sorted(sg.nodes), sorted(sg.edges), sorted(sg.decisions), sorted(sg.utilities)])(_bare_subgame(model, x)), few=2)
    paths = list(gp.find_all_undir_paths(model, one, two))
    if paths:
        p = rng.choice(paths)
        if len(p) > 1:
            agree(rng, m, what, "reachability", "get_motifs", p, lambda x: gp.get_motifs(model, x), sequence=True)
            agree(rng, m, what, "reachability", "get_motif", p, lambda x: gp.get_motif(model, x, len(p) - 1 if len(p) < 3 else 1), sequence=True)
        agree(rng, m, what, "reachability", "is_active_path", p, lambda x: gp.is_active_path(model, x, set(obs)), sequence=True)


def rng_first(decs: List[str], all_decs: List[str]) -> str:
    return decs[0] if decs else all_decs[0]


def _bare_subgame(model: Any, x: Any) -> Any:
    """The subgame of a diagram without mechanisms, which only its structure is asked of."""
    full = model.copy()
    import pycid  # noqa: F401

    for v in full.nodes:
        full.add_cpds(**{v: [0, 1] if v in full.decisions else (lambda **pv: {0: 0.5, 1: 0.5})})
    return full.create_subgame(x)


def run_query(rng: random.Random, m: Any) -> None:
    kind = rng.choice(["cbn", "cid", "macid"])
    s = gen.rand_spec(rng, n=(2, 5), numeric_all=True) if kind == "cbn" else gen.retry(
        rng, gen.rand_diagram, longer=0.1, kind=kind, n=(3, 6), agents=1 if kind == "cid" else 2, decs=(1, 2), max_rules=10**9, connected=rng.random() < 0.7, policies=0.6)
    model = gen.build(rng, s)
    what = s.describe()
    net = s.net()
    qs = pick(rng, s.nodes, 2) or [rng.choice(s.nodes)]
    ctx = rand_context(rng, net, [v for v in s.nodes if v not in qs], rng.choice([0, 0, 1, 2]))
    iv: Optional[Dict[str, Any]] = None
    if rng.random() < 0.4:
        v = rng.choice([v for v in s.nodes if v not in ctx and v not in qs] or [None])
        iv = {v: rng.choice(s.dom[v])} if v else None

    def ask(x: Any) -> Any:
        f = model.query(x, dict(ctx), iv) if iv else model.query(x, dict(ctx))
        return sorted([repr(k), float(p)] for k, p in gen.factor_dict(f).items())

    agree(rng, m, what, "queries", "query", qs, ask, few=3)
    num = [v for v in s.nodes if all(isinstance(o, (int, float)) for o in s.dom[v])]
    xs = pick(rng, num, 3)
    if xs:
        agree(rng, m, what, "queries", "expected_value", xs, lambda x: model.expected_value(x, dict(ctx), iv), order=True, few=3)
        known = {**ctx, xs[0]: rng.choice(s.dom[xs[0]])}
        agree(rng, m, what, "queries", "expected_value:known", xs, lambda x: model.expected_value(x, known, iv), order=True, few=2)


def run_policy(rng: random.Random, m: Any) -> None:
    kind = rng.choice(["cid", "macid"])
    s = gen.retry(rng, gen.rand_diagram, longer=0.1, kind=kind, n=(3, 5), agents=1 if kind == "cid" else 2, decs=(1, 2), max_rules=16, maxdom=2, max_in=2, labels=(0,) if kind == "cid" else (0, 1))
    model = gen.build(rng, s)
    what = s.describe()
    a = rng.choice(list(s.agents))
    own = s.agents[a]["D"]
    if kind == "macid":
        for d in s.decisions:
            if d not in own:
                model.impute_random_decision(d)
    decs = pick(rng, own, 2)
    total = 1
    for d in decs:
        total *= len(s.dom[d]) ** int(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1]))
    if total > 16:
        decs = decs[:1]

    agree(rng, m, what, "policies", "pure_policies", decs, lambda x: [[rule(c) for c in p] for p in model.pure_policies(x)], order=True, few=3)
    agree(rng, m, what, "policies", "optimal_pure_policies", decs, lambda x: sorted(sorted([rule(c) for c in p], key=repr) for p in model.optimal_pure_policies(x)), few=2)
    if kind == "macid":
        agree(rng, m, what, "policies", "joint_pure_policies", decs, lambda x: [[rule(c) for c in p] for p in model.joint_pure_policies(x)], order=True, few=3)
        one = next(iter(model.joint_pure_policies(decs)), ())
        agree(rng, m, what, "policies", "policy_profile_assignment", list(range(len(one))),
              lambda x: sorted([d, c if c is None else rule(c)] for d, c in model.policy_profile_assignment(one[i] for i in x).items()), few=2)
        agree(rng, m, what, "policies", "policy_profile_assignment:rules", list(one),
              lambda x: sorted([d, c if c is None else rule(c)] for d, c in model.policy_profile_assignment(x).items()), order=True, few=3)


def run_game(rng: random.Random, m: Any) -> None:
    from pycid.export.gambit import macid_to_efg

    s = gen.retry(rng, gen.rand_diagram, longer=0.1, kind="macid", n=(3, 5), agents=rng.choice([1, 2, 2]), decs=(1, 2), max_rules=16, maxdom=2, max_in=2, recall=True, modes=("det",), labels=(0, 1))
    leaves = 1
    for v in {x for d in s.decisions for x in [d] + s.parents(d)}:
        leaves *= len(s.dom[v])
    if leaves > 16:
        return
    model = gen.build(rng, s)
    what = s.describe()
    agree(rng, m, what, "games", "macid_to_efg:agents", list(s.agents), lambda x: macid_to_efg(model, None, x)[0].write(), order=True, few=3)
    decs = pick(rng, s.decisions) or list(s.decisions)

    def subgame(x: Any) -> Any:
        sg = model.create_subgame(x)
        return [structure_sorted(sg), tables(sg)]

    agree(rng, m, what, "games", "create_subgame", decs, subgame, few=2)

    def ne(x: Any) -> Any:
        return sorted(sorted([rule(c) for c in p], key=repr) for p in model.get_ne_in_sg(x, solver="enumpure"))

    agree(rng, m, what, "games", "get_ne_in_sg", list(s.decisions) if rng.random() < 0.6 else decs, ne, few=2)
    for d in s.decisions:
        if d not in decs:
            model.impute_random_decision(d)

    def efg(x: Any) -> Any:
        g, infosets = macid_to_efg(model, x)
        return [g.write(), sorted(repr(k) for k in infosets)]

    agree(rng, m, what, "games", "macid_to_efg:decisions", decs, lambda x: efg(set(x)) if isinstance(x, list) else efg(x if hasattr(x, "isdisjoint") else set(x)), few=2)


def structure_sorted(model: Any) -> Any:
    return [type(model).__name__, sorted(model.nodes), sorted(model.edges),
            sorted([repr(a), sorted(x)] for a, x in model.agent_decisions.items()), sorted([repr(a), sorted(x)] for a, x in model.agent_utilities.items())]


def run_mechanism(rng: random.Random, m: Any) -> None:
    """Domains are lists: another sequence is refused or means the same."""
    import pycid
    from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
    from pycid.random.random_cpd import RandomCPD

    pa = [f"P{i}" for i in range(rng.randint(0, 2))]
    start, step = rng.randint(-3, 3), rng.choice([1, 2, -1])
    n = rng.randint(2, 4)
    base: List[Any] = list(range(start, start + step * n, step)) if rng.random() < 0.5 else rng.sample(["a", "b", "c", "d"], n)
    seed = rng.randrange(1, 1000)
    smooth = rng.choice([0.5, 1.0, 3.0])

    def model_with(make: Callable[[Any, Any], Any], dom: Any) -> Any:
        model = pycid.CID([(p, "V") for p in pa] + [("V", "W")], decisions=["V"], utilities=[])
        for p in pa:
            model.add_cpds(**{p: {0: 0.5, 1: 0.5}})
        model.add_cpds(**{"V": make(model, dom), "W": lambda V: V})
        out = [list(model.model.domain["V"]), list(model.model.domain["W"]), tables(model)]
        c = model.copy()
        return out + [list(c.model.domain["V"]), tables(c)]

    makers = {
        "decision": lambda model, d: d, "DecisionDomain": lambda model, d: DecisionDomain("V", model, d),
        "ConstantCPD": lambda model, d: ConstantCPD("V", {base[0]: 0.25}, model, domain=d),
        "StochasticFunctionCPD": lambda model, d: StochasticFunctionCPD("V", lambda **pv: {base[-1]: 0.5}, model, domain=d),
        "RandomCPD": lambda model, d: RandomCPD(d, smooth, seed),
    }
    for name in rng.sample(sorted(makers), 3):
        what = ["mechanism", name, pa, base, seed, smooth]
        want = outcome(lambda: model_with(makers[name], list(base)))
        forms: List[Tuple[str, Any]] = [("tuple", tuple(base))]
        if all(isinstance(x, int) for x in base):
            forms.append(("range", range(start, start + step * n, step)))
        for form, dom in forms:
            m.evaluated(what + [form])
            got = outcome(lambda: model_with(makers[name], dom))
            m.event("compared")
            m.event("on_mechanisms")
            if got[0] == "refused" and form != "list":
                m.event("domain_form_refused")  # a domain is a list; other sequences may be refused
                continue
            m.expect(want[0] == "answered" and want[0] == got[0] and same(want[1], got[1]), f"differs-domain-{name}",
                     f"the domain {base} of a {name} given as a {form} ends in {str(got)[:300]}, given as a list in {str(want)[:300]}", {"of": what})


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C28", case)
    seed_globals(rng)
    {"build": run_build, "graph": run_graph, "query": run_query, "policy": run_policy, "game": run_game, "mechanism": run_mechanism}[case["kind"]](rng, m)
