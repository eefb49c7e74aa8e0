"""C19: subgames are the closed decision sets, created subgames are exact, and subgame perfect equilibria are equilibria of each."""
from __future__ import annotations

import itertools
from typing import Any, Dict, FrozenSet, List, Tuple

import numpy as np

from rv import gen
from rv.checks.c18 import recalls
from rv.common import example_builders, install_policies, make_cases, random_policies, rng_of, seed_globals
from rv.games import Policy, dyadic, game_of, gain, profile_tables, reduced, scale
from rv.ref import Diagram, uniform

RULE = (
    "structures with up to five decisions of one to three agents for the subgame sets and the nodes, edges, roles and mechanisms "
    "of created subgames; perfect-recall games with one to three decisions per agent, several strategic components, hidden "
    "and impossible chance outcomes, ties and irrelevant decisions for get_spe and get_ne_in_sg: each profile against every "
    "joint deviation of an agent inside every subgame with outside decisions fully mixed, and all pure subgame perfect "
    "equilibria enumerated independently under enumpure. Distinct by diagram and operation."
)
ASSUMPTIONS = [
    "subgame perfection is judged with decisions outside the subgame uniform, at most 32 leaves and 256 pure profiles",
    "ties between pure strategies count only where the solved games have exact binary payoffs and probabilities",
]
MIN_EVENTS = {
    "sets_compared": 200, "several_subgames": 80, "subgames_created": 250, "relevant_tables": 250, "parents_marginalised": 40, "spe_default": 40, "spe_enumpure": 50,
    "profiles_judged": 150, "subgame_checks": 250, "pure_spe_expected": 100, "spe_ties_judged": 20, "several_components": 40, "ne_in_sg": 40, "kept_apart": 20, "spe_over_old_rules": 15,
}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, structure=260 * k, create=130 * k, spe=70 * k, exact=50 * k, fixed=60 * k, example=16)


def subgame_structure(g: Diagram, decs: Any) -> Tuple[set, set]:
    rel = {v for v in g.nodes if any(g.r_reachable(d, v) for d in decs)}
    core = rel | set(decs)
    return core | {p for v in core for p in g.pa[v]}, core


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C19", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind in ("structure", "create"):
        return structure(rng, kind, m)
    if kind == "example":
        names = [n for n in example_builders() if "macids." in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        if not all(model.get_cpds(v) is not None for v in model.nodes) or type(model).__name__ != "MACID":
            m.event("example_without_mechanisms")
            return
        s = gen.Spec()
        s.kind, s.nodes, s.edges = "macid", list(model.nodes), list(model.edges)
        s.agents = {a: {"D": list(model.agent_decisions.get(a, [])), "U": list(model.agent_utilities[a])} for a in model.agents}
        s.dom = {v: list(model.model.domain[v]) for v in s.nodes}
        s.nopolicy = set(s.decisions)
        for v in s.nodes:
            if v not in s.nopolicy:
                s.tables[v] = gen.cpd_to_table(model, v, s.parents(v), s.dom)
        if not recalls(s) or too_large(s, 48, 512):
            m.event("example_too_large_or_forgetful")
            return
    else:
        s = make_game(rng, kind)
        model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    games(rng, kind, s, model, m)


def too_large(s: gen.Spec, leaves: int, profiles: int) -> bool:
    nodes = set(s.decisions) | {p for d in s.decisions for p in s.parents(d)}
    rules = [len(s.dom[d]) ** int(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1])) for d in s.decisions]
    return bool(np.prod([len(s.dom[v]) for v in nodes], dtype=float) > leaves or np.prod(rules, dtype=float) > profiles)


def make_game(rng: Any, kind: str) -> gen.Spec:
    for _ in range(600):
        n_ag = rng.choice([1, 2, 2, 2, 3])
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.2, kind="macid", n=(4, 7), agents=n_ag, labels=rng.choice([(0, 1, 2), (1, 2, 3), ("x", "Y", "b c")]),
            decs=rng.choice([(1, 1), (1, 2)]), utils=rng.choice([(1, 1), (1, 2)]), maxdom=rng.choice([2, 2, 3]), max_in=3, max_rules=27,
            connected=rng.random() < 0.8, recall=True, modes=("det",) if kind == "exact" else rng.choice([("free", "det"), ("free",), ("sparse", "free")]), util_leaf=rng.random() < 0.8, tries=3000,
        )
        if len(s.decisions) < 2 or too_large(s, 32, 144 if kind != "exact" else 64):
            continue
        if kind != "exact" and len(s.diagram().sccs()) < 2 and rng.random() < 0.6:
            continue
        return s
    raise gen.NoSpec()


# -- structure ------------------------------------------------------------------------------------------------------
def structure(rng: Any, kind: str, m: Any) -> None:
    s = gen.retry(
        rng, gen.rand_diagram, longer=0.2, kind="macid", n=(3, 8 if kind == "create" else 10), agents=rng.choice([1, 2, 2, 3]), labels=rng.choice([(0, 1, 2), ("x", "Y", "b c")]), decs=rng.choice([(1, 1), (1, 2), (1, 3)]),
        utils=rng.choice([(1, 1), (1, 2)]), max_in=rng.choice([2, 3]), max_rules=10**30, connected=rng.random() < 0.7, util_leaf=rng.random() < 0.7, recall=rng.random() < 0.3, maxdom=3 if kind == "create" else 2, tries=3000,
    )
    g = s.diagram()
    wit = lambda: {"edges": g.edges(), "agents": {str(a): x for a, x in g.agents.items()}}  # noqa: E731
    want = g.subgame_decision_sets()
    if kind == "structure":
        model = gen.make_structure(gen.add_latents(rng, s, 0.08))
        got = [frozenset(x) for x in model.decs_in_each_maid_subgame()]
        m.event("sets_compared")
        m.event("several_subgames", int(len(want) > 1))
        m.evaluated([kind, wit()])
        m.require(sorted(map(sorted, got)) == sorted(map(sorted, want)), "subgame-sets-wrong", f"subgames of {sorted(map(sorted, got))}, expected {sorted(map(sorted, want))}", wit)
        return
    for d in s.decisions:
        if s.parents(d) and np.prod([len(s.dom[p]) for p in s.parents(d)]) > 200:
            return
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    fixed = random_policies(rng, s, [d for d in s.decisions if rng.random() < 0.3], "free")
    install_policies(rng, s, model, fixed)
    sets: List[FrozenSet[str]] = list(want)
    rng.shuffle(sets)
    asks = [set(x) for x in sets[:2]] + [set(rng.sample(s.decisions, rng.randint(1, len(s.decisions))))]
    for decs in asks:
        sub = model.create_subgame(rng.choice([set, list, tuple])(decs))
        nodes, core = subgame_structure(g, decs)
        m.event("subgames_created")
        m.evaluated(["create", s.describe(), sorted(decs)])
        m.require(set(sub.nodes) == nodes, "subgame-nodes", f"the subgame of {sorted(decs)} has nodes {sorted(sub.nodes)}, expected {sorted(nodes)}", wit)
        edges = {(p, v) for v in core for p in g.pa[v]}
        m.require(set(sub.edges) == edges, "subgame-edges", f"the subgame of {sorted(decs)} has edges {sorted(sub.edges)}, expected {sorted(edges)}", wit)
        m.require(set(sub.decisions) == decs and all(sub.decision_agent[d] == g.agent_of[d] for d in decs), "subgame-decisions", f"the subgame of {sorted(decs)} has decisions {dict(sub.decision_agent)}", wit)
        us = {u for u in s.utilities if u in core}
        m.require(set(sub.utilities) == us and all(sub.utility_agent[u] == g.agent_of[u] for u in us), "subgame-utilities", f"the subgame of {sorted(decs)} has utilities {dict(sub.utility_agent)}", wit)
        for a in {g.agent_of[d] for d in decs}:
            m.require(a in sub.agents, "subgame-agents", f"agent {a!r} decides in the subgame of {sorted(decs)} but is not among its agents", wit)
        for v in nodes:
            f = sub.get_cpds(v)
            m.require(f is not None and list(sub.model.domain[v]) == list(s.dom[v]), "subgame-domain", f"{v} has domain {sub.model.domain.get(v)} in the subgame, {s.dom[v]} in the game", wit)
            if v in decs and v not in fixed:
                continue
            if v in core:
                if v in s.nopolicy and v not in fixed:
                    continue  # a decision that is relevant but not played: its rule is not given
                t = gen.factor_table(f, v, s.parents(v), s.dom)
                ref = fixed.get(v, s.tables[v])
                m.event("relevant_tables")
                m.require(bool(np.allclose(t, ref, atol=1e-8)), "subgame-mechanism", f"the mechanism of {v} changed in the subgame of {sorted(decs)}", s.describe)
            else:
                t = gen.factor_table(f, v, [], s.dom)
                m.event("parents_marginalised")
                m.require(bool(np.all(t >= 0) and abs(t.sum() - 1) < 1e-8), "subgame-marginal", f"{v} has no distribution in the subgame: {t.tolist()}", s.describe)


# -- games ----------------------------------------------------------------------------------------------------------
def subgame_gain(m: Any, s: gen.Spec, game: Any, sets: Any, pol: Policy, outside: Policy) -> Tuple[float, Any]:
    worst: Tuple[float, Any] = (0.0, None)
    for sub in sets:
        p = {**{d: outside[d] for d in s.decisions if d not in sub}, **{d: pol[d] for d in sub}}
        for a, x in s.agents.items():
            own = [d for d in x["D"] if d in sub]
            if own:
                m.event("subgame_checks")
                worst = max(worst, (gain(game, a, own, p), (str(a), sorted(sub))), key=lambda t: t[0])
    return worst


def games(rng: Any, kind: str, s: gen.Spec, model: Any, m: Any) -> None:
    net = s.net()
    game = game_of(s, net)
    g = s.diagram()
    sets = g.subgame_decision_sets()
    sccs = g.sccs()
    m.event("several_components", int(len(sccs) > 1))
    flat = {d: uniform(net, d) for d in s.decisions}
    sc = scale(s)
    rel = g.relevance_edges()
    if kind == "fixed":
        # lower decisions already have rules; solve one component (or a closed set) on top of them
        sub = set(rng.choice(sccs))
        lower = {e for e in s.decisions if e not in sub and reach(rel, sub, e)}
        pol = random_policies(rng, s, sorted(lower), rng.choice(["free", "det"]))
        upper = {e for e in s.decisions if e not in sub | lower}
        install_policies(rng, s, model, pol)
        base = {**flat, **pol}
        agents = {a: [d for d in x["D"] if d in sub] for a, x in s.agents.items() if set(x["D"]) & sub}
        solver = rng.choice([None, "enumpure"])
        nes = model.get_ne_in_sg(decisions_in_sg=rng.choice([set, list, tuple])(sub), solver=solver)
        m.event("ne_in_sg")
        m.evaluated([kind, s.describe(), sorted(sub), {d: t.tolist() for d, t in pol.items()}, str(solver)])
        m.event("kept_apart", int(bool(upper or lower)))
        eff = solver or ("enummixed" if len(agents) == 2 else "enumpure")
        for ne in rng.sample(nes, min(12, len(nes))):
            p = profile_tables(m, ne, s, sorted(sub), "get_ne_in_sg")
            if p is None:
                return
            m.event("profiles_judged")
            mixed = solver is None and len(agents) > 2
            for a, ds in agents.items():
                x = gain(game, a, ds, {**base, **p})
                m.require(x <= (1e-2 if mixed else 1e-6) * sc, "not-an-equilibrium-in-subgame", f"get_ne_in_sg({sorted(sub)}, {solver}): agent {a!r} gains {x}", s.describe)
        if eff == "enummixed":
            m.require(bool(nes), "no-equilibrium-in-subgame", "get_ne_in_sg reports no equilibrium", s.describe)
        return
    default = kind != "exact" and rng.random() < 0.7
    for solver in [None] * default + ["enumpure"]:
        if rng.random() < 0.25:  # rules installed earlier do not matter: every decision is solved
            install_policies(rng, s, model, random_policies(rng, s, [d for d in s.decisions if rng.random() < 0.7], "det"))
            m.event("spe_over_old_rules")
        record: List[bool] = []
        with recording(record, len(s.agents)):
            spes = model.get_spe() if solver is None else model.get_spe(solver=solver)
        m.event("spe_" + (solver or "default"))
        m.evaluated([kind, s.describe(), str(solver)])
        pols = []
        loose = solver is None and len(s.agents) > 2
        order = rng.sample(range(len(spes)), len(spes))
        for n, k in enumerate(order):
            pol = profile_tables(m, spes[k], s, s.decisions, f"get_spe-{solver}")
            if pol is None:
                return
            pols.append(pol)
            m.event("profiles_judged")
            if n < 12:
                x, where = subgame_gain(m, s, game, sets, pol, flat)
                m.require(x <= (1e-2 if loose else 1e-6) * sc, f"not-subgame-perfect-{solver}", f"get_spe(solver={solver}): in the subgame {where} an agent gains {x}", s.describe)
        if solver is None:
            m.require(bool(pols), "no-spe", "get_spe() reports nothing for a finite game", s.describe)
            continue
        exact = bool(record) and all(record)
        have = {signature(net, s, sccs, rel, p) for p in pols}
        done = set()
        for combo in itertools.product(*[list(game.pure_rules(d)) for d in s.decisions]):
            p = dict(zip(s.decisions, combo))
            verdict = pure_spe(game, net, s, sccs, rel, flat, p, 1e-9 * sc)
            if verdict == "no" or (verdict == "tie" and not exact):
                m.event("tie_not_judged", int(verdict == "tie"))
                continue
            sig = signature(net, s, sccs, rel, p)
            if sig in done:
                continue
            done.add(sig)
            m.event("pure_spe_expected")
            m.event("spe_ties_judged", int(verdict == "tie"))
            m.require(sig in have, "pure-spe-missed", f"get_spe(solver='enumpure') reports {len(pols)} profiles and misses a pure one", lambda: {"model": s.describe(), "profile": {d: t.tolist() for d, t in p.items()}})


def reach(rel: Any, start: Any, d: str) -> bool:
    seen, todo = set(start), list(start)
    while todo:
        v = todo.pop()
        for a, b in rel:
            if a == v and b not in seen:
                seen.add(b)
                todo.append(b)
    return d in seen


def signature(net: Any, s: gen.Spec, sccs: Any, rel: Any, pol: Policy) -> Tuple[Any, ...]:
    """The rules where they matter: at contexts neither nature, the lower components nor the agent itself rules out."""
    out = []
    for c in sccs:
        lower = {e for e in s.decisions if e not in c and reach(rel, c, e)}
        for x in s.agents.values():
            own = [d for d in x["D"] if d in c]
            if own:
                out.append(reduced(net, own + sorted(lower), pol, [d for d in s.decisions if d not in own and d not in lower], own))
    return tuple(out)


def pure_spe(game: Any, net: Any, s: gen.Spec, sccs: Any, rel: Any, flat: Policy, pol: Policy, margin: float) -> str:
    """'yes' (strictly), 'tie' or 'no': component by component, lower components as in the profile, the rest uniform."""
    res = "yes"
    for c in sccs:
        lower = {e for e in s.decisions if e not in c and reach(rel, c, e)}
        base = {**flat, **{d: pol[d] for d in lower | set(c)}}
        for a, x in s.agents.items():
            own = [d for d in x["D"] if d in c]
            if not own:
                continue
            v = game.eu(a, base)
            here = None
            for combo in itertools.product(*[list(game.pure_rules(d)) for d in own]):
                dev = {**base, **dict(zip(own, combo))}
                w = game.eu(a, dev)
                if w > v + 1e-12:
                    if w > v + margin:
                        return "no"
                    res = "tie"
                    if w > v + 1e-11:
                        return "no"
                elif w > v - margin and res == "yes":
                    others = [d for d in s.decisions if d not in own and d not in lower]
                    if here is None:
                        here = reduced(net, own + sorted(lower), base, others, own)
                    if reduced(net, own + sorted(lower), dev, others, own) != here:
                        res = "tie"
    return res


class recording:
    """Notes for each game the solver builds whether its numbers are exact (when the builder can be found)."""

    def __init__(self, record: List[bool], players: int):
        import importlib

        self.mod = importlib.import_module("pycid.core.macid")
        self.record = record
        self.orig = getattr(self.mod, "macid_to_efg", None)

    def __enter__(self) -> None:
        if self.orig is not None:
            def wrapped(*a: Any, **k: Any) -> Any:
                out = self.orig(*a, **k)
                self.record.append(dyadic(out[0], len(out[0].players)))
                return out

            self.mod.macid_to_efg = wrapped  # type: ignore

    def __exit__(self, *a: Any) -> None:
        if self.orig is not None:
            self.mod.macid_to_efg = self.orig  # type: ignore
