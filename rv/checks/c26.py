"""C26: verdicts do not depend on insertion order, names, hash seed, repetition or what was asked before."""
from __future__ import annotations

import base64
import concurrent.futures
import json
import os
import pathlib
import pickle
import random
import subprocess
import sys
from typing import Any, Callable, Dict, List, Mapping, Optional, Sequence, Tuple

import numpy as np

from rv import gen
from rv.checks.c19 import signature
from rv.common import make_cases, rand_context, rng_of, seed_globals
from rv.games import reduced

RULE = (
    "random diagrams (graphs of 3 to 10 nodes, parameterised single-agent diagrams, games); the record of all public verdicts (paths, trails, "
    "reachability, recall, orders of components, subgames, incentives, requisite graphs, reasoning patterns, query and expectation values, values of "
    "information and control, optimal rules and policies, pure and subgame-perfect equilibria, refusals included) taken once and compared "
    "with the record of the same object asked again in another order, of a copy, of constructions in other insertion orders, of consistent "
    "renamings of nodes and agents, and of interpreters with other hash seeds. Distinct by diagram and variant."
)
ASSUMPTIONS = ["equilibrium sets are compared where payoffs are deterministic, so that gambit's exact arithmetic sees the same ties in every construction"]
MIN_EVENTS = {
    "records": 400, "answers": 25000, "repeated": 90, "reordered": 140, "renamed": 90, "agents_renamed": 15, "copied": 20, "interpreters": 4, "records_elsewhere": 50,
    "graph": 60, "cid": 15, "macid": 15, "decision_sets": 45, "equilibria": 14, "subgame_perfect": 14, "patterns": 35,
}
TECHNIQUE = "runtime monitor: metamorphic comparison of recorded verdicts over orders, names, histories and interpreters"
VERIF = str(pathlib.Path(__file__).resolve().parents[2])


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 16
    return make_cases(seed, process=3 * k) + make_cases(seed, graph=110 * k, cid=30 * k, macid=28 * k)


# -- diagrams -------------------------------------------------------------------------------------------------------
def make(rng: Any, kind: str) -> gen.Spec:
    if kind == "graph":
        which = rng.choice(["cid", "macid", "macid"])
        many = rng.random() < 0.35  # utilities of one agent
        return gen.retry(
            rng, gen.rand_diagram, longer=0.15, kind=which, n=(6, 10) if many else (3, 9), agents=1 if which == "cid" or many else rng.choice([1, 2, 2, 3]), labels=(0,) if which == "cid" else rng.choice([(0, 1, 2), ("x", "Y", "b c")]),
            decs=rng.choice([(1, 1), (1, 2), (1, 3)]), utils=(3, 4) if many else rng.choice([(1, 1), (1, 2)]), max_in=3, max_rules=10**30, connected=rng.random() < 0.7, util_leaf=not many and rng.random() < 0.6,
            recall=rng.random() < 0.5, density=rng.choice([None, 0.3, 0.4]), tries=3000,
        )
    for _ in range(400):
        if kind == "cid":
            s = gen.retry(
                rng, gen.rand_diagram, longer=0.15, kind="cid", n=(3, 5), agents=1, labels=(0,), decs=(1, 2), utils=(1, 2), maxdom=rng.choice([2, 3]), max_rules=27, recall=rng.random() < 0.8,
                connected=rng.random() < 0.8, util_leaf=rng.random() < 0.6, policies=rng.choice([0, 0, 1]), tries=3000,
            )
            limit = 40
        else:
            s = gen.retry(
                rng, gen.rand_diagram, longer=0.15, kind="macid", n=(4, 6), agents=rng.choice([2, 2, 3]), labels=rng.choice([(0, 1, 2), (2, 0, 1), ("x", "Y", "b c")]), decs=(1, 2), utils=(1, 1), maxdom=2,
                max_rules=16, recall=True, modes=("det",), connected=rng.random() < 0.8, util_leaf=rng.random() < 0.8, tries=3000,
            )
            limit = 64
        rules = [len(s.dom[d]) ** int(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1])) for d in s.decisions]
        nodes = set(s.decisions) | {p for d in s.decisions for p in s.parents(d)}
        if np.prod(rules, dtype=float) <= limit and np.prod([len(s.dom[v]) for v in nodes], dtype=float) <= 32:
            return s
    raise gen.NoSpec()


def reorder(rng: Any, s: gen.Spec) -> gen.Spec:
    t = s.copy()
    order = {v: t.parents(v) for v in t.nodes}
    rng.shuffle(t.nodes)
    rng.shuffle(t.edges)
    for v, tab in t.tables.items():
        t.tables[v] = np.transpose(tab, [order[v].index(p) for p in t.parents(v)] + [len(order[v])])
    names = list(t.agents)
    rng.shuffle(names)
    t.agents = {a: {k: rng.sample(x, len(x)) for k, x in s.agents[a].items()} for a in names}
    return t


def rename(s: gen.Spec, mp: Mapping[str, str], ag: Mapping[Any, Any]) -> gen.Spec:
    t = s.copy()
    t.nodes = [mp[v] for v in s.nodes]
    t.edges = [(mp[a], mp[b]) for a, b in s.edges]
    t.dom = {mp[v]: x for v, x in t.dom.items()}
    t.tables = {mp[v]: x for v, x in t.tables.items()}
    t.style = {mp[v]: x for v, x in t.style.items()}
    t.nopolicy = {mp[v] for v in t.nopolicy}
    t.agents = {ag[a]: {k: [mp[v] for v in x] for k, x in y.items()} for a, y in t.agents.items()}
    return t


# -- the record -----------------------------------------------------------------------------------------------------
def plain(x: Any) -> Any:
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((plain(y) for y in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and (abs(a - b) <= 1e-7 * max(1.0, abs(a)) or (a != a and b != b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and bool(a == b)


Q = List[Tuple[str, Callable[[], Any]]]


def graph_questions(s: gen.Spec, n: Callable[[str], str], back: Mapping[str, str], ag: Mapping[Any, Any], model: Any, ask: random.Random) -> Q:
    import pycid
    from pycid.core import get_paths as gp
    from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph

    out: Q = []

    def nodes(vs: Any) -> Any:
        return {back[v] for v in vs}

    def sets(vss: Any) -> Any:
        return {frozenset(nodes(vs)) for vs in vss}

    def add(name: str, f: Callable[[], Any]) -> None:
        out.append((name, f))

    for _ in range(6):
        a, b = ask.sample(s.nodes, 2)
        w = set(ask.sample([v for v in s.nodes if v not in (a, b)], min(len(s.nodes) - 2, ask.choice([0, 1, 1, 2]))))
        W = {n(v) for v in w}
        k = f"({a},{b}|{sorted(w)})"
        A, B = n(a), n(b)
        add("directed paths" + k, lambda A=A, B=B: {tuple(back[v] for v in p) for p in gp.find_all_dir_paths(model, A, B)})
        if len(s.edges) < 14:
            add("paths" + k, lambda A=A, B=B: {tuple(back[v] for v in p) for p in gp.find_all_undir_paths(model, A, B)})
        add("decision-free" + k, lambda A=A, B=B: gp.directed_decision_free_path(model, A, B))
        add("active path exists" + k, lambda A=A, B=B, W=W: bool(gp.find_active_path(model, A, B, set(W))))
        add("active trail" + k, lambda A=A, B=B, W=W: B in model.active_trail_nodes(A, observed=list(W))[A])
        add("backdoor" + k, lambda A=A, B=B, W=W: gp.is_active_backdoor_trail(model, A, B, set(W)))
        add("frontdoor" + k, lambda A=A, B=B, W=W: gp.is_active_indirect_frontdoor_trail(model, A, B, set(W)))
    for x in s.decisions:
        for y in s.decisions:
            if x != y:
                add(f"s-reachable({x},{y})", lambda x=x, y=y: model.is_s_reachable(n(x), n(y)))
    for _ in range(3):
        ds = ask.sample(s.decisions, ask.randint(1, len(s.decisions)))
        y = ask.choice(s.nodes)
        add(f"r-reachable({sorted(ds)},{y})", lambda ds=ds, y=y: model.is_r_reachable([n(d) for d in ds], n(y)))
    for a in s.agents:
        add(f"recall({a!r})", lambda a=a: model.sufficient_recall(ag[a]))
    add("recall", lambda: model.sufficient_recall())
    add("relevance", lambda: {(back[x], back[y]) for x, y in RelevanceGraph(model).edges})
    add("relevance acyclic", lambda: RelevanceGraph(model).is_acyclic())
    add("components", lambda: sets(RelevanceGraph(model).get_sccs()))
    add("condensed components", lambda: sets(CondensedRelevanceGraph(model).get_scc_topological_ordering()))

    def ordered() -> Any:
        """The order of components respects relevance: what a component relies on always stands on the same side."""
        con = [frozenset(nodes(c)) for c in CondensedRelevanceGraph(model).get_scc_topological_ordering()]
        pos = {d: i for i, c in enumerate(con) for d in c}
        return {(back[x], back[y], pos[back[x]] < pos[back[y]]) for x, y in RelevanceGraph(model).edges if pos[back[x]] != pos[back[y]]}

    add("order of components", ordered)
    add("valid order", lambda: [len(model.get_valid_order()), all(o.index(x) < o.index(y) for o in [model.get_valid_order()] for x, y in model.edges if x in o and y in o)])
    if s.kind == "macid":
        add("subgames", lambda: sets(model.decs_in_each_maid_subgame()))
        if len(s.edges) < 14:
            add("patterns", lambda: sorted((k, sorted(nodes(v))) for k, v in pycid.get_reasoning_patterns(model).items()))
            for d in s.decisions:
                add(f"direct effect({d})", lambda d=d: pycid.direct_effect(model, n(d)))
                add(f"manipulation({d})", lambda d=d: pycid.manipulation(model, n(d), set(model.decisions)))
                add(f"signaling({d})", lambda d=d: pycid.signaling(model, n(d), set(model.decisions)))
                add(f"revealing({d})", lambda d=d: pycid.revealing_or_denying(model, n(d), set(model.decisions)))
    add("requisite graph", lambda: {(back[x], back[y]) for x, y in pycid.requisite_graph(model).edges})
    for d in s.decisions:
        add(f"requisite({d})", lambda d=d: nodes(pycid.requisite_list(model, n(d))))
    if len(s.agents) == 1 and s.kind == "cid":
        add("voc", lambda: nodes(pycid.admits_voc_list(model)))
        add("direct voc", lambda: nodes(pycid.admits_dir_voc_list(model)))
        for d in s.decisions:
            add(f"voi({d})", lambda d=d: nodes(pycid.admits_voi_list(model, n(d))))
            add(f"ri({d})", lambda d=d: nodes(pycid.admits_ri_list(model, n(d))))
            add(f"ici({d})", lambda d=d: nodes(pycid.admits_ici_list(model, n(d))))
            add(f"indirect voc({d})", lambda d=d: nodes(pycid.admits_indir_voc_list(model, n(d))))
    return out


def value_questions(s: gen.Spec, n: Callable[[str], str], back: Mapping[str, str], ag: Mapping[Any, Any], model: Any, ask: random.Random) -> Q:
    import pycid

    out: Q = []
    net = s.net()
    flat = {v: s.parents(v) for v in s.nodes}

    def table(c: Any) -> Any:
        v = back[c.variable]
        dom = {n(x): d for x, d in s.dom.items()}
        return (v, gen.factor_table(c, c.variable, [n(p) for p in flat[v]], dom))

    def add(name: str, f: Callable[[], Any]) -> None:
        out.append((name, f))

    for _ in range(5):
        q = ask.sample(s.nodes, ask.choice([1, 1, 2]))
        ctx = rand_context(ask, net, [v for v in s.nodes if v not in q], ask.choice([0, 1, 2]))
        iv = {v: ask.choice(s.dom[v]) for v in ask.sample([v for v in s.nodes if v not in ctx and v not in q], ask.choice([0, 0, 1]) if len(s.nodes) > len(ctx) + len(q) else 0)}

        def ask_query(q: Any = q, ctx: Any = ctx, iv: Any = iv) -> Any:
            f = model.query([n(v) for v in q], {n(v): o for v, o in ctx.items()}, {n(v): o for v, o in iv.items()})
            return sorted((sorted((back[v], repr(o)) for v, o in k), p) for k, p in gen.factor_dict(f).items())

        add(f"query({q},{ctx},{iv})", ask_query)
    for a in s.agents:
        ctx = rand_context(ask, net, s.nodes, ask.choice([0, 0, 1]))
        add(f"utility({a!r},{ctx})", lambda a=a, ctx=ctx: model.expected_utility({n(v): o for v, o in ctx.items()}, agent=ag[a]))
    add("scm", lambda: model.is_structural_causal_model())
    rules = lambda xs: {frozenset((v, t.round(6).tobytes()) for v, t in (table(c) for c in x)) for x in xs}  # noqa: E731
    show = lambda x: sorted(sorted((v, t.hex()) for v, t in y) for y in x)  # noqa: E731
    for d in s.decisions:
        add(f"pure rules({d})", lambda d=d: show(rules([[c] for c in model.pure_decision_rules(n(d))])))
    if s.kind == "cid":
        add("decision sets", lambda: show(rules(model.optimal_policies())))
        add("best", lambda: best(model))
        for d in s.decisions:
            add(f"optimal rules({d})", lambda d=d: show(rules([[c] for c in model.optimal_pure_decision_rules(n(d))])))
        for v in s.nodes:
            if s.diagram().sufficient_recall() and len(s.decisions) == 1:
                for d in s.decisions:
                    if len(s.dom[v]) ** len(s.nodes) <= 81:
                        add(f"quantity({v})", lambda v=v, d=d: pycid.quantitative_voi(model, n(d), n(v)))
    else:
        g = s.diagram()
        sccs, rel = g.sccs(), g.relevance_edges()

        def profiles(xs: Any) -> List[Any]:
            return [dict(table(c) for c in x) for x in xs]

        def whole(pol: Any) -> Any:
            return tuple(reduced(net, x["D"], pol, [d for d in s.decisions if d not in x["D"]]) for x in s.agents.values())

        add("equilibria", lambda: {repr(whole(p)) for p in profiles(model.get_ne(solver="enumpure"))})
        add("subgame perfect", lambda: {repr(signature(net, s, sccs, rel, p)) for p in profiles(model.get_spe(solver="enumpure"))})
        a = ask.choice(list(s.agents))
        for d in s.agents[a]["D"]:
            add(f"optimal rules({d})", lambda d=d: show(rules([[c] for c in optimal(model, n(d))])))
    return out


def optimal(model: Any, d: str) -> Any:
    """Optimal rules of one decision while the others play uniformly."""
    live = model.copy()
    live.impute_fully_mixed_policy_profile()
    return live.optimal_pure_decision_rules(d)


def best(model: Any) -> float:
    live = model.copy()
    live.impute_optimal_policy()
    return float(live.expected_utility({}))


def questions(s: gen.Spec, mp: Mapping[str, str], ag: Mapping[Any, Any], model: Any, ask_seed: Any, graph: bool) -> Q:
    ask = random.Random(f"ask{ask_seed}")
    n = lambda v: mp[v]  # noqa: E731
    back = {y: x for x, y in mp.items()}
    out = graph_questions(s, n, back, ag, model, ask)
    if not graph:
        out += value_questions(s, n, back, ag, model, ask)
    return out


def record(rng: random.Random, qs: Q) -> Dict[str, Any]:
    out: Dict[str, Any] = {}
    for name, f in rng.sample(qs, len(qs)):
        try:
            x = plain(f())
        except (ValueError, KeyError, IndexError) as e:  # a refusal is a verdict, too
            x = ["refused", type(e).__name__]
        out[name] = x
    return out


def compare(m: Any, s: gen.Spec, want: Dict[str, Any], got: Dict[str, Any], variant: str, extra: Any = None) -> None:
    m.event("records")
    m.event("answers", len(want))
    m.evaluated([variant, s.describe(), extra])
    bad = [k for k in want if not same(want[k], got.get(k))]
    m.require(
        not bad and len(want) == len(got), f"differs-{variant}-{bad[0].split('(')[0].replace(' ', '-') if bad else 'questions'}",
        f"{variant}: {len(bad)} answers differ: " + "; ".join(f"{k}: {str(want[k])[:200]} and {str(got.get(k))[:200]}" for k in bad[:3]), lambda: {"model": s.describe(), "variant": extra},
    )


def identity(s: gen.Spec) -> Tuple[Dict[str, str], Dict[Any, Any]]:
    return {v: v for v in s.nodes}, {a: a for a in s.agents}


def construct(rng: Any, s: gen.Spec, graph: bool) -> Any:
    return gen.make_structure(s) if graph else gen.build(rng, s)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C26", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "process":
        processes(rng, m)
        return
    graph = kind == "graph"
    s = make(rng, kind)
    m.event(kind)
    seed = rng.random()
    ids = identity(s)
    model = construct(rng, s, graph)
    qs = questions(s, *ids, model, seed, graph)
    want = record(rng, qs)
    m.event("decision_sets", sum(k.startswith(("decision sets", "optimal rules")) for k in want))
    m.event("equilibria", sum(k == "equilibria" for k in want))
    m.event("subgame_perfect", sum(k == "subgame perfect" for k in want))
    m.event("patterns", sum(k == "patterns" for k in want))
    compare(m, s, want, record(rng, qs), "repeated")
    m.event("repeated")
    if rng.random() < 0.3:
        other = model.copy()
        compare(m, s, want, record(rng, questions(s, *ids, other, seed, graph)), "copied")
        m.event("copied")
    for _ in range(2 if graph else 1):
        t = reorder(rng, s)
        other = construct(rng, t, graph)
        compare(m, s, want, record(rng, questions(s, *ids, other, seed, graph)), "reordered", t.describe())
        m.event("reordered")
    mp, ag = renaming(rng, s)
    m.event("agents_renamed", int(any(k != v for k, v in ag.items())))
    t = rename(s, mp, ag)
    other = construct(rng, t, graph)
    compare(m, s, want, record(rng, questions(s, mp, ag, other, seed, graph)), "renamed", [mp, {str(k): str(v) for k, v in ag.items()}])
    m.event("renamed")


def renaming(rng: Any, s: gen.Spec) -> Tuple[Dict[str, str], Dict[Any, Any]]:
    if rng.random() < 0.3:  # names that contain one another
        pool = ["A" * k for k in range(1, 6)] + ["A_" + str(k) for k in range(12)]
    elif rng.random() < 0.5:
        pool = list(s.nodes)
    else:
        pool = list(rng.choice(gen.NAME_POOLS))
    pool = rng.sample(pool, len(pool)) if len(pool) >= len(s.nodes) else rng.sample([*gen.NAME_POOLS[1], *gen.NAME_POOLS[2]], len(s.nodes))
    mp = dict(zip(s.nodes, pool))
    ag: Dict[Any, Any] = {a: a for a in s.agents}
    if s.kind != "cid" and rng.random() < 0.7:
        labels = list(rng.choice([(0, 1, 2), (5, 3, 4), ("p", "q", "r"), list(s.agents)]))
        rng.shuffle(labels)
        ag = dict(zip(s.agents, labels[: len(s.agents)])) if len(labels) >= len(s.agents) else ag
    return mp, ag


# -- other interpreters ---------------------------------------------------------------------------------------------
CHILD = """
import sys, json, pickle, base64, random, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.WARNING)
import os
sys.path[:0] = [os.environ.get("RV_REPO", "/repo"), %r]
import pycid
from rv.checks import c26
jobs = pickle.loads(base64.b64decode(sys.stdin.read()))
print("RESULT" + base64.b64encode(pickle.dumps([c26.elsewhere(j) for j in jobs])).decode())
"""


def elsewhere(job: Any) -> Dict[str, Any]:
    s, seed, graph = job
    rng = random.Random(seed)
    seed_globals(rng)
    model = construct(rng, s, graph)
    return record(rng, questions(s, *identity(s), model, seed, graph))


def processes(rng: Any, m: Any) -> None:
    jobs = [(make(rng, k), rng.random(), k == "graph") for k in ["graph"] * 10 + ["cid"] * 2 + ["macid"] * 2]
    text = base64.b64encode(pickle.dumps(jobs)).decode()
    seeds = ["1", str(rng.randrange(2, 2**31))]
    with concurrent.futures.ThreadPoolExecutor(len(seeds)) as pool:
        runs = [
            (h, pool.submit(subprocess.run, [sys.executable, "-c", CHILD % VERIF], input=text, capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": h}, timeout=300))
            for h in seeds
        ]
        want = [elsewhere(j) for j in jobs]
    for h, r in runs:
        out, err = r.result().stdout, r.result().stderr
        lines = [x for x in out.splitlines() if x.startswith("RESULT")]
        m.require(bool(lines), "child-failed", f"the interpreter with hash seed {h} failed: {err[-1500:]}")
        m.event("interpreters")
        for (s, seed, graph), w, g in zip(jobs, want, pickle.loads(base64.b64decode(lines[0][6:]))):
            m.event("records_elsewhere")
            compare(m, s, w, g, "hash-seed", h)
