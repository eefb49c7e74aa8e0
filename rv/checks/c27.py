"""C27: questions outside a method's validity are refused, and refused edits change nothing."""
from __future__ import annotations

import random
from typing import Any, Callable, Dict, Iterator, List, Tuple

from rv import gen
from rv.common import example_builders, make_cases, random_policies, install_policies, rng_of, seed_globals
from rv.hooks import snapshot, snapshot_diff
from rv.ref import Graph

RULE = (
    "random diagrams (one to three agents, with and without sufficient recall, with and without mechanisms and policies, 3 to "
    "9 nodes) and bundled examples; every public function with an invalid argument (unknown node, non-parent, unknown agent, "
    "outcome outside the domain, decisions of different agents, a role or a diagram the criterion does not cover) in each of its "
    "argument positions, alone and among valid ones, must raise; the same request with valid arguments must not where it is "
    "always answerable; edges that close a cycle of any length, self-loops, malformed edges, role changes, removals and "
    "(partly) impossible interventions must raise and leave the full snapshot as it was. Distinct by diagram and request."
)
ASSUMPTIONS = [
    "any exception counts as a refusal",
    "an edge list with a bad edge may add the edges before it when it extends a diagram",
]
MIN_EVENTS = {
    "refused": 8000, "edits_refused": 1500, "answered": 1500, "cycles_refused": 350, "long_cycles": 60, "built_refused": 350,
    "several_agents": 700, "without_recall": 150, "outside_domain": 350, "different_agents": 10, "not_a_parent": 200,
    "partly_unknown_intervention": 60,
}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 12
    return make_cases(seed, graph=170 * k, ask=140 * k, norecall=90 * k, build=160 * k, edit=110 * k, example=24 if tier == "quick" else 120)


class Asker:
    def __init__(self, m: Any, what: Any):
        self.m, self.what = m, what

    def bad(self, name: str, f: Callable[[], Any], *events: str) -> None:
        m = self.m
        m.evaluated([self.what, name])
        try:
            r = f()
            if hasattr(r, "__next__"):
                r = list(r)
        except RecursionError:
            m.violation(f"endless-{name.split(':')[0]}", f"{name} ended in unbounded recursion", {"of": self.what})
        except Exception:  # noqa: BLE001
            m.event("refused")
            for e in events:
                m.event(e)
        else:
            m.violation(f"answered-{name.split(':')[0]}", f"{name} was answered: {r!r:.200}", {"of": self.what})

    def good(self, name: str, f: Callable[[], Any]) -> None:
        m = self.m
        try:
            r = f()
            if hasattr(r, "__next__"):
                list(r)
        except Exception as e:  # noqa: BLE001
            m.violation(f"refused-{name.split(':')[0]}", f"{name}, a valid request, ended in {type(e).__name__}: {e!s:.200}", {"of": self.what})
        else:
            m.event("answered")


def among(rng: random.Random, good: List[Any], bad: Any, most: int = 3) -> List[Any]:
    xs = rng.sample(good, min(len(good), rng.randint(0, most)))
    xs.insert(rng.randint(0, len(xs)), bad)
    return xs


def stranger(rng: random.Random, s: gen.Spec) -> str:
    """A name no node has: far from, or easily taken for, an existing one."""
    v = rng.choice(s.nodes)
    for n in rng.sample(["nope", v + "mec", v + "_", v.lower(), v.upper(), v[:-1] or "q", "", " " + v, "0"], 9):
        if n not in s.nodes:
            return n
    return "nope"


def diagram(rng: random.Random, kind: str, n: Tuple[int, int], **kw: Any) -> gen.Spec:
    kw = {"decs": (1, 2), "labels": (0, 1, 2), "maxdom": 2, "max_rules": 10**6, "recall": rng.random() < 0.7,
          "util_leaf": rng.random() < 0.5, "connected": rng.random() < 0.7, "styles": False, **kw}
    return gen.retry(rng, gen.rand_diagram, kind=kind, n=n, **kw)


def graph_requests(rng: random.Random, s: gen.Spec, model: Any, a: Asker) -> None:
    """The questions about the graph alone."""
    import pycid
    from pycid.core import get_paths as gp
    from pycid.core.relevance_graph import RelevanceGraph

    nodes, N = s.nodes, stranger(rng, s)
    one, two = rng.sample(nodes, 2)
    g = Graph(s.nodes, s.edges)
    for f in (gp.find_active_path, gp.is_active_backdoor_trail, gp.is_active_indirect_frontdoor_trail):
        n = f.__name__
        a.bad(f"{n}:from", lambda: f(model, N, one, set(rng.sample(nodes, rng.randint(0, 2))) - {one}))
        a.bad(f"{n}:to", lambda: f(model, one, N, set(rng.sample(nodes, rng.randint(0, 2))) - {one}))
        a.bad(f"{n}:observed", lambda: f(model, one, two, set(among(rng, [x for x in nodes if x not in (one, two)], N))))
        a.bad(f"{n}:itself", lambda: f(model, N, N))
    for f in (gp.find_all_dir_paths, gp.find_all_undir_paths, *([gp.directed_decision_free_path] if s.kind != "cbn" else [])):
        n = f.__name__
        a.bad(f"{n}:from", lambda: f(model, N, one))
        a.bad(f"{n}:to", lambda: f(model, one, N))
        a.bad(f"{n}:itself", lambda: f(model, N, N))
        a.good(n, lambda: f(model, one, two))
    path = [one]
    while rng.random() < 0.8:
        nb = [x for x in nodes if x not in path and ((x, path[-1]) in s.edges or (path[-1], x) in s.edges)]
        if not nb:
            break
        path.append(rng.choice(nb))
    at = rng.randint(0, len(path))
    broken = path[:at] + [N] + path[at:]
    a.bad("get_motif", lambda: gp.get_motif(model, broken, rng.randrange(len(broken))))
    a.bad("get_motifs", lambda: gp.get_motifs(model, broken))
    a.bad("is_active_path", lambda: gp.is_active_path(model, broken))
    a.bad("is_active_path:observed", lambda: gp.is_active_path(model, path, set(among(rng, nodes, N))))
    a.bad("get_motif:index", lambda: gp.get_motif(model, path, len(path) + rng.randint(0, 2)))
    apart = [x for x in nodes if x != one and (x, one) not in s.edges and (one, x) not in s.edges]
    if apart:
        x = rng.choice(apart)
        third = rng.choice([v for v in nodes if v not in (one, x)] or [x])
        a.bad("get_motif:no path", lambda: gp.get_motif(model, [x, one, third], 1))
    a.good("is_active_path", lambda: gp.is_active_path(model, path))
    if s.kind == "cbn":
        return
    obs = rng.sample(nodes, rng.randint(0, 2))
    a.bad("active_trail_nodes", lambda: model.active_trail_nodes(N, obs))
    a.bad("active_trail_nodes:observed", lambda: model.active_trail_nodes(one, among(rng, nodes, N)))
    a.bad("get_valid_order", lambda: model.get_valid_order(among(rng, nodes, N)))
    agent = rng.choice(["nobody", 17, None, ("x",), -1])
    if agent is not None:
        a.bad("sufficient_recall", lambda: model.sufficient_recall(agent))
        a.bad("sufficient_recall:keyword", lambda: model.sufficient_recall(agent=agent))
    decs, other = s.decisions, [x for x in nodes if x not in s.decisions]
    if decs:
        d = rng.choice(decs)
        a.bad("is_r_reachable:decision", lambda: model.is_r_reachable(N, one))
        a.bad("is_r_reachable:decisions", lambda: model.is_r_reachable(among(rng, decs, N), one))
        a.bad("is_r_reachable:node", lambda: model.is_r_reachable(d, N))
        a.bad("is_r_reachable:nodes", lambda: model.is_r_reachable(d, among(rng, nodes, N)))
        a.bad("is_s_reachable:first", lambda: model.is_s_reachable(N, d))
        a.bad("is_s_reachable:second", lambda: model.is_s_reachable(d, N))
        a.bad("is_s_reachable:among", lambda: model.is_s_reachable(d, among(rng, decs, N)))
        a.bad("relevance_graph", lambda: RelevanceGraph(model, among(rng, decs, N, 2) + [d]))
        if other:
            c = rng.choice(other)
            a.bad("is_s_reachable:no decision", lambda: model.is_s_reachable(d, among(rng, decs, c)))
            a.bad("relevance_graph:no decision", lambda: RelevanceGraph(model, [d, c]))
        for x in rng.sample(nodes, min(3, len(nodes))):
            if x not in g.pa[d]:
                a.bad("requisite:no parent", lambda: pycid.requisite(model, d, x), "not_a_parent")
            else:
                a.good("requisite", lambda: pycid.requisite(model, d, x))
        a.bad("requisite:unknown", lambda: pycid.requisite(model, d, N))
        a.bad("requisite:unknown decision", lambda: pycid.requisite(model, N, one))
        a.bad("requisite_list", lambda: pycid.requisite_list(model, N))
        eff = set(decs)
        for f in (pycid.manipulation, pycid.signaling, pycid.revealing_or_denying):
            n = f.__name__
            a.bad(f"{n}:decision", lambda: f(model, N, set(eff)))
            a.bad(f"{n}:effective", lambda: f(model, d, set(among(rng, decs, N))))
            a.good(n, lambda: f(model, d, set(eff)))
        a.bad("direct_effect", lambda: pycid.direct_effect(model, N))
    incentives(rng, s, model, a, N)


def incentives(rng: random.Random, s: gen.Spec, model: Any, a: Asker, N: str) -> None:
    import pycid

    if not s.decisions:
        return
    d, x = rng.choice(s.decisions), rng.choice(s.nodes)
    pair = {"voi": pycid.admits_voi, "ri": pycid.admits_ri, "ici": pycid.admits_ici, "indir_voc": pycid.admits_indir_voc}
    plist = {"voi": pycid.admits_voi_list, "ri": pycid.admits_ri_list, "ici": pycid.admits_ici_list, "indir_voc": pycid.admits_indir_voc_list}
    solo = {"voc": pycid.admits_voc, "dir_voc": pycid.admits_dir_voc}
    slist = {"voc": pycid.admits_voc_list, "dir_voc": pycid.admits_dir_voc_list}
    if len(s.agents) > 1:
        for n, f in pair.items():
            for y in rng.sample(s.nodes, min(3, len(s.nodes))):
                a.bad(f"admits_{n}:several agents", lambda: f(model, d, y), "several_agents")
            a.bad(f"admits_{n}:several agents", lambda: f(model, d, d), "several_agents")
            a.bad(f"admits_{n}_list:several agents", lambda: plist[n](model, d), "several_agents")
        for n, f in solo.items():
            for y in rng.sample(s.nodes, min(3, len(s.nodes))):
                a.bad(f"admits_{n}:several agents", lambda: f(model, y), "several_agents")
            a.bad(f"admits_{n}:several agents", lambda: f(model, d), "several_agents")
            a.bad(f"admits_{n}_list:several agents", lambda: slist[n](model), "several_agents")
        return
    recall = s.diagram().sufficient_recall()
    for n, f in pair.items():
        a.bad(f"admits_{n}:unknown", lambda: f(model, d, N))
        a.bad(f"admits_{n}:unknown decision", lambda: f(model, N, x))
        a.bad(f"admits_{n}_list:unknown decision", lambda: plist[n](model, N))
        if n != "ici" and not recall:
            for y in s.nodes:
                a.bad(f"admits_{n}:no recall", lambda: f(model, d, y), "without_recall")
            a.bad(f"admits_{n}_list:no recall", lambda: plist[n](model, d), "without_recall")
        elif recall:
            a.good(f"admits_{n}", lambda: f(model, d, x))
    for n, f in solo.items():
        a.bad(f"admits_{n}:unknown", lambda: f(model, N))
        if n == "voc" and not recall:
            for y in s.nodes:
                a.bad("admits_voc:no recall", lambda: f(model, y), "without_recall")
            a.bad("admits_voc_list:no recall", lambda: slist[n](model), "without_recall")
        elif recall:
            a.good(f"admits_{n}", lambda: f(model, x))


def value_requests(rng: random.Random, s: gen.Spec, bare: Any, full: Any, a: Asker) -> None:
    """The questions about distributions, values and policies; `full` has a policy everywhere, `bare` as specified."""
    import pycid

    nodes, N = s.nodes, stranger(rng, s)
    one, two = rng.sample(nodes, 2)
    nets = s.net()
    out = lambda v: rng.choice([o for o in ("zzz", 99, -7.5, None, ("a",)) if o not in s.dom[v]])  # noqa: E731
    ok = {}
    t = rng.choice(nodes)
    p = nets.prob([t])
    ok[t] = s.dom[t][int(p.argmax())] if p is not None else s.dom[t][0]
    ask = rng.choice([v for v in nodes if v != t])
    mix = lambda extra: dict(sorted({**(ok if rng.random() < 0.6 else {}), **extra}.items(), key=lambda kv: rng.random()))  # noqa: E731
    a.bad("query:unknown", lambda: full.query([N], mix({})))
    a.bad("query:unknown among", lambda: full.query(among(rng, [ask], N), {}))
    a.bad("query:unknown context", lambda: full.query([ask], mix({N: 0})))
    far = rng.choice([v for v in nodes if v != ask])
    a.bad("query:outcome", lambda: full.query([ask], mix({far: out(far)})), "outside_domain")
    a.bad("query:outcome of the queried", lambda: full.query([ask], mix({ask: out(ask)})), "outside_domain")
    a.bad("query:unknown intervention", lambda: full.query([ask], {}, {N: 0}))
    a.bad("query:partly unknown intervention", lambda: full.query([ask], {}, mix({N: 0})))
    a.bad("query:outcome under an intervention", lambda: full.query([ask], {far: out(far)}, {t: ok[t]}), "outside_domain")
    num = [v for v in nodes if all(isinstance(o, (int, float)) for o in s.dom[v])]
    if num:
        y = rng.choice(num)
        z = rng.choice([v for v in nodes if v != y])
        a.bad("expected_value:unknown", lambda: full.expected_value(among(rng, [y], N), {}))
        a.bad("expected_value:unknown context", lambda: full.expected_value([y], {N: 1}))
        a.bad("expected_value:unknown context of a known value", lambda: full.expected_value([y], {y: s.dom[y][0], N: 1}))
        a.bad("expected_value:outcome", lambda: full.expected_value([y], {z: out(z)}), "outside_domain")
        a.bad("expected_value:own outcome", lambda: full.expected_value([y], {y: out(y)}), "outside_domain")
        a.bad("expected_value:outcome beside a known value", lambda: full.expected_value([y], {y: s.dom[y][0], z: out(z)}), "outside_domain")
        a.bad("expected_value:intervention", lambda: full.expected_value([y], {}, {N: 0}))
        a.bad("expected_value:keyword intervention", lambda: full.expected_value([y], {}, intervention={t: ok[t], N: 0}))
    if s.kind == "cbn":
        return
    who = rng.choice(list(s.agents))
    a.bad("expected_utility:agent", lambda: full.expected_utility({}, agent=rng.choice(["nobody", 17, ("x",)])))
    if s.agents[who]["U"]:
        a.bad("expected_utility:unknown context", lambda: full.expected_utility({N: 0}, agent=who))
        a.bad("expected_utility:outcome", lambda: full.expected_utility({one: out(one)}, agent=who), "outside_domain")
        a.bad("expected_utility:intervention", lambda: full.expected_utility({}, {N: 0}, agent=who))
        a.bad("expected_utility:partly unknown", lambda: full.expected_utility(mix({}), {one: s.dom[one][0], N: 0}, agent=who))
    decs, other = s.decisions, [x for x in nodes if x not in s.decisions]
    d = rng.choice(decs)
    own = [x for ag in s.agents.values() if d in ag["D"] for x in ag["D"]]
    a.bad("pure_decision_rules", lambda: bare.pure_decision_rules(N))
    a.bad("pure_policies", lambda: bare.pure_policies(among(rng, own, N, 1)))
    a.bad("optimal_pure_policies:unknown", lambda: bare.optimal_pure_policies(among(rng, own, N, 1)))
    a.bad("optimal_pure_decision_rules:unknown", lambda: bare.optimal_pure_decision_rules(N))
    a.bad("impute_random_decision", lambda: full.copy().impute_random_decision(N))
    a.bad("impute_optimal_decision", lambda: full.copy().impute_optimal_decision(N))
    if other:
        c = rng.choice(other)
        a.bad("optimal_pure_policies:no decision", lambda: bare.optimal_pure_policies([c]))
        a.bad("optimal_pure_policies:among decisions", lambda: bare.optimal_pure_policies(among(rng, own, c, 1) + [d]))
        a.bad("optimal_pure_decision_rules:no decision", lambda: bare.optimal_pure_decision_rules(c))
        a.bad("impute_optimal_decision:no decision", lambda: full.copy().impute_optimal_decision(c))
    if s.kind == "macid":
        a.bad("joint_pure_policies", lambda: bare.joint_pure_policies(among(rng, own, N, 1)))
        a.bad("create_subgame", lambda: bare.create_subgame(among(rng, decs, N, 2)))
        a.bad("get_ne_in_sg", lambda: bare.get_ne_in_sg(among(rng, decs, N, 2)))
        if other:
            a.bad("create_subgame:no decision", lambda: bare.create_subgame(among(rng, decs, c, 2)))
            a.bad("get_ne_in_sg:no decision", lambda: bare.get_ne_in_sg([c]))
        if len({id(x) for x in s.agents.values() if x["D"]}) > 1:
            groups = [x["D"] for x in s.agents.values() if x["D"]]
            mixed = [rng.choice(x) for x in rng.sample(groups, 2)] + rng.sample(decs, rng.randint(0, 1))
            a.bad("optimal_pure_policies:agents", lambda: bare.optimal_pure_policies(mixed), "different_agents")
            a.bad("optimal_pure_policies:all", lambda: bare.optimal_pure_policies(set(decs)), "different_agents")
        if len(s.nodes) <= 5:
            a.bad("get_ne:solver", lambda: bare.get_ne(solver="best"))
            a.bad("get_spe:solver", lambda: bare.get_spe(solver="best"))
    else:
        g = Graph(s.nodes, s.edges)
        a.bad("quantitative_voi:unknown", lambda: pycid.quantitative_voi(bare, d, N))
        a.bad("quantitative_voi:unknown decision", lambda: pycid.quantitative_voi(bare, N, one))
        a.bad("quantitative_voi:decision", lambda: pycid.quantitative_voi(bare, d, d))
        for x in rng.sample(sorted(g.desc(d) - {d}), min(1, len(g.desc(d) - {d}))):
            a.bad("quantitative_voi:descendant", lambda: pycid.quantitative_voi(bare, d, x))
        a.bad("quantitative_voc:unknown", lambda: pycid.quantitative_voc(bare, N))
        if num:
            a.bad("total_effect:cause", lambda: pycid.total_effect(full, N, rng.choice(num), 0, 1))
            a.bad("total_effect:effect", lambda: pycid.total_effect(full, one, N, s.dom[one][0], s.dom[one][-1]))
            a.bad("introduced_total_effect:cause", lambda: pycid.introduced_total_effect(full, N, d, rng.choice(num), 0, 1))


def build_requests(rng: random.Random, m: Any) -> None:
    """Edge lists that no diagram may be built from, the bad edge at any place."""
    import pycid
    from pycid.core.macid_base import MACIDBase

    s = gen.rand_spec(rng, n=(2, 9), density=rng.choice([0.2, 0.5, 0.8]), max_in=4)
    cls = rng.choice([pycid.CausalBayesianNetwork, pycid.CID, pycid.MACID, MACIDBase])
    a = Asker(m, [cls.__name__, s.edges])
    v = rng.choice(s.nodes)
    w = rng.choice(s.nodes)
    g = Graph(s.nodes, s.edges)
    bad: List[Tuple[str, Any]] = [
        ("number", (v, rng.choice([1, 2.5, None, True]))), ("number first", (rng.choice([0, ("t",)]), v)), ("triple", (v, w, "T")),
        ("single", (v,)), ("empty", ()), ("string", "AB"), ("list", [v, w]), ("nothing", None), ("loop", (v, v)), ("bytes", (v, b"x")),
    ]
    for x in rng.sample(s.nodes, len(s.nodes)):
        up = sorted(g.anc([x]) - {x})
        if up:
            y = rng.choice(up)
            length = len(max(g.dir_paths(y, x), key=len))
            bad.append((f"cycle{length}", (x, y)))
            if rng.random() < 0.5:
                break
    for name, e in bad:
        edges: List[Any] = list(s.edges)
        edges.insert(rng.randint(0, len(edges)), e)
        if name.startswith("cycle") and int(name[5:]) > 3:
            m.event("long_cycles")
        kw = {}
        if cls is pycid.CID:
            kw = {"decisions": [], "utilities": []}
    
        form = rng.choice([list, tuple, iter])
        a.bad(f"built-{name.rstrip('0123456789')}", lambda: cls(form(edges), **kw), "built_refused")
    a.good(f"built-{cls.__name__}", lambda: cls(s.edges))


class Editor:
    def __init__(self, m: Any, what: Any):
        self.m, self.what = m, what

    def refused(self, model: Any, name: str, f: Callable[[], Any], *events: str) -> None:
        m = self.m
        m.evaluated([self.what, name])
        before = snapshot(model)
        try:
            f()
        except Exception:  # noqa: BLE001
            m.event("edits_refused")
            for e in events:
                m.event(e)
        else:
            m.violation(f"accepted-{name.split(':')[0]}", f"{name} was accepted", {"of": self.what})
            return
        diff = snapshot_diff(before, snapshot(model))
        m.expect(diff == [], f"changed-by-refused-{name.split(':')[0]}", f"{name} was refused but changed the model: {diff}", {"of": self.what})


def edit_requests(rng: random.Random, s: gen.Spec, model: Any, m: Any) -> None:
    ed = Editor(m, s.describe())
    g = Graph(s.nodes, s.edges)
    N = stranger(rng, s)
    pairs = [(x, y) for x in s.nodes for y in sorted(g.anc([x]) - {x})]
    for x, y in rng.sample(pairs, min(4, len(pairs))):
        length = len(max(g.dir_paths(y, x), key=len))
        ev = ["cycles_refused"] + (["long_cycles"] if length > 3 else [])
        ed.refused(model, f"add_edge:cycle of {length}", lambda: model.add_edge(x, y), *ev)
        if rng.random() < 0.4:
            ed.refused(model, "add_edges_from:cycle", lambda: model.add_edges_from(rng.choice([list, tuple])([(x, y)])), *ev)
    v = rng.choice(s.nodes)
    ed.refused(model, "add_edge:loop", lambda: model.add_edge(v, v))
    gone = [(x, y) for x in s.nodes for y in s.nodes if (x, y) not in s.edges]
    if gone:
        e = rng.choice(gone)
        ed.refused(model, "remove_edge:absent", lambda: model.remove_edge(*e))
    ed.refused(model, "remove_edge:unknown", lambda: model.remove_edge(v, N))
    ed.refused(model, "remove_node:unknown", lambda: model.remove_node(N))
    ed.refused(model, "remove_cpds:unknown", lambda: model.remove_cpds(N))
    known = [x for x in s.nodes if x in model.model.domain]
    some = {x: rng.choice(s.dom[x]) for x in rng.sample(known, min(len(known), rng.randint(0, 3)))}
    items = list(some.items())
    items.insert(rng.randint(0, len(items)), (N, 0))
    ed.refused(model, "intervene:unknown", lambda: model.intervene(dict(items)), *(["partly_unknown_intervention"] if some else []))
    if s.kind != "cbn":
        agent = rng.choice(list(s.agents) + ["new"])
        ed.refused(model, "make_decision:unknown", lambda: model.make_decision(N, agent))
        ed.refused(model, "make_utility:unknown", lambda: model.make_utility(N, agent))
        ed.refused(model, "make_chance:unknown", lambda: model.make_chance(N))
        ed.refused(model, "impute_random_decision:unknown", lambda: model.impute_random_decision(N))
        ed.refused(model, "impute_optimal_decision:unknown", lambda: model.impute_optimal_decision(N))


def run_case(case: Dict[str, Any], m: Any) -> None:
    import pycid

    rng = rng_of("C27", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "build":
        build_requests(rng, m)
        return
    if kind == "example":
        builders = example_builders()
        name = sorted(builders)[case["i"] % len(builders)]
        model = builders[name]()
        s = gen.Spec()
        s.kind = "cid" if isinstance(model, pycid.CID) else "macid" if hasattr(model, "decisions") else "cbn"
        s.nodes, s.edges = list(model.nodes), list(model.edges)
        s.dom = {v: list(model.model.domain.get(v, [0, 1])) for v in s.nodes}
        if hasattr(model, "decisions"):
            s.agents = {ag: {"D": list(model.agent_decisions[ag]), "U": list(model.agent_utilities[ag])} for ag in model.agents}
        if len(s.nodes) < 2:
            return
        graph_requests(rng, s, model, Asker(m, name))
        edit_requests(rng, s, model, m)
        return
    if kind == "norecall":
        for _ in range(40):
            s = diagram(rng, "cid", (5, 8), agents=1, decs=(2, 3), recall=rng.random() < 0.2, labels=(0,))
            if not s.diagram().sufficient_recall():
                break
        model = gen.make_structure(s)
        incentives(rng, s, model, Asker(m, s.describe()), stranger(rng, s))
        return
    if kind == "graph":
        what = rng.choice(["cbn", "cid", "cid", "macid", "macid"])
        if what == "cbn":
            s = gen.rand_spec(rng, n=(2, 8))
        else:
            s = diagram(rng, what, (3, 9), agents=1 if what == "cid" else rng.randint(1, 3))
        model = gen.make_structure(s)
        if what == "macid" and rng.random() < 0.3:  # an agent with a role of one kind only
            free = [x for x in s.nodes if x not in s.decisions + s.utilities]
            if free:
                x = rng.choice(free)
                role = rng.choice("DU")
                s.agents["extra"] = {"D": [], "U": []}
                s.agents["extra"][role].append(x)
                (model.make_decision if role == "D" else model.make_utility)(x, "extra")
        graph_requests(rng, s, model, Asker(m, s.describe()))
        return
    what = rng.choice(["cbn", "cid", "cid", "macid", "macid"])
    if what == "cbn":
        s = gen.rand_spec(rng, n=(2, 5))
    else:
        s = diagram(rng, what, (3, 6), agents=1 if what == "cid" else rng.choice([1, 2, 2, 3]), styles=kind == "edit", labels=(0,) if what == "cid" else (0, 1, 2))
    bare = gen.build(rng, s)
    if kind == "edit":
        if rng.random() < 0.3:
            victim = rng.choice(s.nodes)
            if victim in bare.model:
                bare.remove_cpds(victim)
        edit_requests(rng, s, bare, m)
        return
    full = bare.copy()
    if what != "cbn":
        full.impute_fully_mixed_policy_profile()
    value_requests(rng, s, bare, full, Asker(m, s.describe()))
