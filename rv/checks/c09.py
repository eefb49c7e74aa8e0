"""C09: optimal policies attain the maximum, and the list of optimal pure policies is exact."""
from __future__ import annotations

import itertools
import random
from typing import Any, Dict, List, Optional, Sequence, Tuple

import numpy as np

from rv import gen
from rv.common import make_cases, random_policies, rng_of, seed_globals
from rv.ref import Game, Net, uniform

RULE = (
    "random single-agent diagrams with and without sufficient recall, with ties (coarse and deterministic tables), impossible "
    "contexts, options that tie up to rounding errors of decimal probabilities, stakes from 1e-7 to 1e4, several and disconnected utilities, non-numeric and unsorted decision domains, and single agents of "
    "multi-agent diagrams with the other decisions fixed or irrelevant; solve, impute_optimal_policy, "
    "impute_optimal_decision, optimal_policies, optimal_pure_policies and optimal_pure_decision_rules judged against the "
    "expected utility of every pure policy computed from a brute-force utility tensor. Distinct by model and operation."
)
ASSUMPTIONS = ["at most 81 joint pure policies per request", "gaps between 1e-10 and 1e-7 of the utilities' size, and below 2e-12, between policies are not judged"]
MIN_EVENTS = {"solved": 90, "lists_compared": 120, "rules_judged": 70, "ties": 40, "without_recall": 12, "agents_mixed_refused": 15, "contexts_judged": 250, "ties_up_to_rounding": 5, "small_stakes": 8}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, recall=60 * k, any=70 * k, partial=60 * k, macid=60 * k, rounding=60 * k, relay=45 * k)


def joint(game: Game, ds: Sequence[str]) -> int:
    return int(np.prod([game.n_rules(d) for d in ds], dtype=float)) if ds else 1


def tables(cpds: Sequence[Any], s: gen.Spec) -> Dict[str, np.ndarray]:
    return {f.variable: gen.factor_table(f, f.variable, s.parents(f.variable), s.dom) for f in cpds}


def key(pol: Dict[str, np.ndarray], ds: Sequence[str]) -> Tuple[Any, ...]:
    return tuple(pol[d].round(9).tobytes() for d in ds)


def size(net: Net, us: Sequence[str]) -> float:
    """How large the sum of the utilities can be: differences are judged relative to it."""
    return sum(max(abs(float(x)) for x in net.dom[u]) for u in us) or 1.0


def optimal_set(game: Game, agent: Any, ds: Sequence[str], base: Dict[str, np.ndarray]) -> Tuple[float, Optional[set]]:
    """Best value and the pure policies attaining it; None when some value is too close to call."""
    vals = []
    for combo in itertools.product(*[list(game.pure_rules(d)) for d in ds]):
        pol = {**base, **dict(zip(ds, combo))}
        vals.append((game.eu(agent, pol), key(pol, ds)))
    best = max(v for v, _ in vals)
    scale = size(game.net, game.utils[agent])
    if any(1e-10 * scale < best - v < 1e-7 * scale + 2e-12 for v, _ in vals):
        return best, None
    return best, {k for v, k in vals if best - v <= 1e-10 * scale}


def compare_list(m: Any, got: Sequence[Any], s: gen.Spec, game: Game, agent: Any, ds: Sequence[str], base: Dict[str, np.ndarray], what: str) -> None:
    best, want = optimal_set(game, agent, ds, base)
    m.event("lists_compared")
    for pol in got:
        m.require(sorted(f.variable for f in pol) == sorted(ds), f"{what}-decisions", f"{what}: a policy covers {[f.variable for f in pol]}, not {sorted(ds)}")
    keys = [key(tables(pol, s), ds) for pol in got]
    if want is None:
        m.event("too_close_to_call")
        return
    if len(want) > 1:
        m.event("ties")
        if len({game.eu(agent, {**base, **dict(zip(ds, c))}) for c in itertools.product(*[list(game.pure_rules(d)) for d in ds]) if key(dict(zip(ds, c)), ds) in want}) > 1:
            m.event("ties_up_to_rounding")
    m.require(len(set(keys)) == len(keys), f"{what}-duplicates", f"{what} lists a policy twice")
    m.require(
        set(keys) == want, f"{what}-wrong-set",
        f"{what}({ds}) lists {len(keys)} policies, {len(set(keys) & want)} of the {len(want)} optimal ones and {len(set(keys) - want)} others",
        lambda: {"model": s.describe(), "best": best},
    )


def context_gap(net: Net, us: Sequence[str], d: str, table: np.ndarray, m: Any) -> float:
    """Largest loss of `table` in a context of positive probability, other rules as in `net`."""
    n2 = net.with_policy({d: uniform(net, d)})
    pa = n2.parents[d]
    worst = 0.0
    p_ctx = n2.weight(pa, {}) if pa else np.array(1.0)
    # E[sum of utilities | pa, d] * P(pa, d)
    joint_p = n2.weight(pa + [d], {})
    tot = np.zeros_like(joint_p)
    for u in us:
        tot = tot + n2.weight(pa + [d, u], {}) @ np.array(n2.dom[u], dtype=float) if u not in pa else tot + joint_p * np.reshape(
            np.array(n2.dom[u], dtype=float), [-1 if a == u else 1 for a in pa + [d]])
    for idx in np.ndindex(*[len(n2.dom[a]) for a in pa]):
        if p_ctx[idx] < 1e-9:
            continue
        m.event("contexts_judged")
        q = tot[idx] / joint_p[idx]
        worst = max(worst, float(q.max() - (table[idx] * q).sum()) - 2e-12)
    return max(0.0, worst) / size(net, us)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C09", case)
    seed_globals(rng)
    kind = case["kind"]
    two = kind == "macid"
    for _ in range(60):
        if kind == "rounding":
            s = gen.rounding_ties(rng)
            net = s.net()
            game = Game(net, s.decisions, {a: x["U"] for a, x in s.agents.items()})
            break
        if kind == "relay":
            s = gen.relay(rng)
            net = s.net()
            game = Game(net, s.decisions, {0: s.utilities})
            if joint(game, s.decisions) <= 81:
                break
            continue
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.3, cap=4000, kind=rng.choice(["macid", "macidbase"]) if two else "cid", n=(3, 7), agents=2 if two else 1,
            decs=(1, 2) if two else rng.choice([(1, 2), (2, 3), (1, 3)]), utils=(1, 3), maxdom=3, max_rules=81, connected=rng.random() < 0.7,
            recall=kind == "recall" or rng.random() < 0.3, modes=rng.choice([("free", "det"), ("coarse", "det"), ("det",), ("sparse", "det", "free")]),
            util_leaf=rng.random() < 0.7,
        )
        if rng.random() < 0.3:
            gen.scale_utilities(rng, s)
        net = s.net()
        game = Game(net, s.decisions, {a: x["U"] for a, x in s.agents.items()})
        if joint(game, s.decisions if kind != "partial" else []) <= 72:
            break
    else:
        return
    model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    if any(0 < abs(x) < 1e-3 for u in s.utilities for x in s.dom[u]):
        m.event("small_stakes")
    g = s.diagram()
    recall = g.sufficient_recall()
    if not recall:
        m.event("without_recall")
    m.evaluated([kind, s.describe()])
    if not two and kind != "partial":
        ds = s.decisions
        best, _ = optimal_set(game, 0, ds, {})
        tol = 1e-8 * size(net, s.utilities) + 2e-12
        pre = rng.random() < 0.3
        if pre:  # whatever policies are in place first
            for d in rng.sample(ds, rng.randint(1, len(ds))):
                model.impute_random_decision(d)
        how = rng.choice(["solve", "impute", "both"])
        results = []
        if how != "impute":
            sol = model.solve()
            m.require(set(sol) == set(ds), "solve-decisions", f"solve() covers {sorted(sol)}, not {sorted(ds)}")
            results.append(("solve", {d: gen.factor_table(f, d, s.parents(d), s.dom) for d, f in sol.items()}))
            live = model.copy()
            live.add_cpds(*list(sol.values()))
            m.require(abs(float(live.expected_utility({})) - best) <= tol, "solve-not-optimal", f"imputing solve() gives {float(live.expected_utility({}))}, the best policy {best}", s.describe)
        if how != "solve":
            live = model.copy()
            live.impute_optimal_policy()
            results.append(("impute_optimal_policy", {d: gen.cpd_to_table(live, d, s.parents(d), s.dom) for d in ds}))
            m.require(abs(float(live.expected_utility({})) - best) <= tol, "impute-not-optimal", f"impute_optimal_policy gives {float(live.expected_utility({}))}, the best policy {best}", s.describe)
            if rng.random() < 0.4:  # again, over the policy in place
                live.impute_optimal_policy()
                m.require(abs(float(live.expected_utility({})) - best) <= tol, "reimpute-not-optimal", f"a second impute_optimal_policy gives {float(live.expected_utility({}))}, the best is {best}", s.describe)
            # the imputed rules must not adapt to later interventions
        for name, pol in results:
            m.event("solved")
            v = game.eu(0, pol)
            m.require(abs(v - best) <= tol, f"{name}-not-optimal", f"{name} attains {v}, the best policy {best}", s.describe)
            if recall:
                topo = gen.topo_order(s)
                for d in sorted(ds, key=topo.index):
                    earlier = {e: uniform(net, e) for e in ds if topo.index(e) < topo.index(d)}
                    gap = context_gap(net.with_policy({**pol, **earlier}), [u for u in s.utilities], d, pol[d], m)
                    m.require(gap <= 1e-8, f"{name}-context-not-optimal", f"{name}: the rule of {d} loses {gap} in some context that earlier decisions can reach", s.describe)
        if rng.random() < 0.8 and joint(game, ds) <= 32:
            compare_list(m, model.optimal_policies() if rng.random() < 0.6 else model.optimal_pure_policies(rng.choice([list, set, tuple])(ds)), s, game, 0, ds, {}, "optimal_policies")
        return
    # some decisions have policies, the others are asked for or left open
    fixed = random_policies(rng, s, [d for d in s.decisions if rng.random() < 0.6], rng.choice(["free", "det", "sparse"]))
    from rv.common import install_policies

    install_policies(rng, s, model, fixed)
    agent = rng.choice(list(s.agents))
    own = s.agents[agent]["D"]
    ask = own if (two and rng.random() < 0.5) else [rng.choice(own)]
    open_ = [d for d in s.decisions if d not in fixed and d not in ask]
    base = {d: uniform(net, d) for d in s.decisions}
    base.update(fixed)
    dependent = [e for e in open_ if any(g.r_reachable(d, e) for d in ask)]
    if joint(game, ask) <= 81:
        try:
            if len(ask) == 1 and rng.random() < 0.6:
                got = [(f,) for f in model.optimal_pure_decision_rules(ask[0])]
            else:
                got = model.optimal_pure_policies(list(ask))
        except ValueError:
            m.event("refused_open_relevant_decision")
            m.require(bool(dependent), "optimal-refused", f"optimal policies of {ask} were refused though no relevant decision lacks a policy", s.describe)
        else:
            if dependent:
                m.event("answered_with_open_decision")  # allowed only when the value cannot depend on it
            compare_list(m, got, s, game, agent, ask, base, "optimal_pure_policies")
            for _ in range(3 if dependent else 0):  # then it must be right whatever that decision does
                other = random_policies(rng, s, dependent, "det")
                compare_list(m, got, s, game, agent, ask, {**base, **other}, "optimal_pure_policies-open")
    d = ask[0]
    live = model.copy()
    others = [e for e in s.decisions if e not in fixed and e != d and g.r_reachable(d, e)]
    try:
        live.impute_optimal_decision(d)
        t = gen.cpd_to_table(live, d, s.parents(d), s.dom)
    except ValueError:
        m.event("impute_refused")
        m.require(bool([e for e in s.decisions if e not in fixed and e != d]), "impute-decision-refused", f"impute_optimal_decision({d}) was refused though every other decision has a policy", s.describe)
    else:
        m.event("rules_judged")
        gap = context_gap(net.with_policy({e: t_ for e, t_ in base.items() if e != d}), s.agents[agent]["U"], d, t, m)
        m.require(gap <= 1e-8, "imputed-decision-not-optimal", f"impute_optimal_decision({d}) loses {gap} in a context of positive probability", s.describe)
        if others:
            m.event("imputed_with_open_decision")
        for e in s.decisions:
            if e != d and e in fixed:
                m.require(bool(np.allclose(gen.cpd_to_table(live, e, s.parents(e), s.dom), fixed[e])), "impute-changed-other", f"impute_optimal_decision({d}) changed {e}")
    if two:
        a, b = [x["D"] for x in s.agents.values()]
        try:
            model.optimal_pure_policies([a[0], b[0]])
        except ValueError:
            m.event("agents_mixed_refused")
        else:
            m.violation("agents-mixed", f"optimal_pure_policies([{a[0]}, {b[0]}]) mixes agents and was answered")
