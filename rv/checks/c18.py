"""C18: reported Nash equilibria admit no profitable deviation, and enumeration of pure equilibria misses none."""
from __future__ import annotations

import os
import pickle
import signal
from typing import Any, Dict, List

import numpy as np

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.games import dyadic, game_of, gain, profile_tables, pure_equilibria, reduced, scale, strict
from rv.monitor import say
from rv.ref import uniform

RULE = (
    "random one- to three-agent games with perfect recall, hidden and observed chance nodes, impossible chance outcomes, ties, "
    "utilities that influence other nodes, zero-sum games, games without pure equilibria, and bundled examples; get_ne with "
    "the default and every applicable solver: each profile against the best response over all pure strategies of each agent "
    "in the brute-force utility tensor; under enumpure all pure equilibria enumerated independently. Distinct by game and solver."
)
ASSUMPTIONS = [
    "at most 48 leaves and 512 pure profiles (32 and 128 for generated games)", "ties between pure strategies count only where payoffs and chance probabilities are exact binary fractions",
    "numerical solvers are held to a deviation gain of 1e-6 (enumeration, lp, lcp, gnm) or 1e-2 (simpdiv) of the payoff scale; gnm may find nothing, "
    "and gambit's lp may return an unnormalised profile, which is refused",
    "solver ipa runs in a child process that is ended after 4 s",
]
MIN_EVENTS = {"solver_default": 60, "solver_enumpure": 50, "solver_enummixed": 15, "solver_lcp": 12, "solver_lp": 3, "solver_simpdiv": 3, "profiles_judged": 250, "mixed_profiles": 15, "pure_equilibria_expected": 80, "no_pure_equilibrium": 3, "ties_judged": 100, "impossible_contexts": 3}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, two=64 * k, three=24 * k, one=16 * k, exact=24 * k, zerosum=16 * k, nopure=8 * k, example=16)


def make_game(rng: Any, kind: str, leaves: int = 32) -> gen.Spec:
    n_ag = {"two": 2, "three": 3, "one": 1, "exact": rng.choice([2, 2, 3]), "zerosum": 2}[kind]
    for _ in range(400):
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.15 if kind != "exact" else 0.35, kind="macid", n=(3, 7) if kind != "exact" else (3, 6), agents=n_ag, labels=rng.choice([(0, 1, 2), (1, 2, 3), ("x", "Y", "b c")]),
            decs=rng.choice([(1, 1), (1, 2)]) if kind != "one" else (1, 2), utils=(1, 2) if kind != "zerosum" else (1, 1), maxdom=2 if kind == "three" else 3, max_in=3, max_rules=27,
            connected=rng.random() < 0.8, recall=True, modes=("det",) if kind == "exact" else rng.choice([("free", "det"), ("free",), ("sparse", "free"), ("sparse", "sparse", "det")]), util_leaf=rng.random() < 0.7, tries=2000,
        )
        if kind == "exact":
            for v in s.nodes:
                if not s.parents(v) and v not in s.decisions and len(s.dom[v]) > 1:
                    p = rng.choice([[0.5, 0.5], [0.25, 0.75], [1.0, 0.0]]) + [0.0] * (len(s.dom[v]) - 2)
                    rng.shuffle(p)
                    s.tables[v] = np.array(p)
                    if s.style[v] in ("func", "kwfunc", "pfunc"):
                        s.style[v] = "tab"
        if kind == "zerosum":
            a, b = list(s.agents)
            u = s.agents[a]["U"][0]
            w = s.agents[b]["U"][0]
            if s.edges and any(x == w for x, _ in s.edges):
                continue
            s.edges = [e for e in s.edges if e[1] != w] + [(u, w)]
            if not gen_acyclic(s):
                continue
            s.dom[w] = sorted(-x for x in s.dom[u])
            s.tables[w] = np.array([[1.0 if y == -x else 0.0 for y in s.dom[w]] for x in s.dom[u]])
            s.style[w] = "func"
        nodes = set(s.decisions) | {p for d in s.decisions for p in s.parents(d)}
        if np.prod([len(s.dom[v]) for v in nodes], dtype=float) > leaves:
            continue
        per = {a: np.prod([len(s.dom[d]) ** int(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1])) for d in x["D"]], dtype=float) for a, x in s.agents.items()}
        if max(per.values()) <= (9 if kind == 'exact' else 16) and np.prod(list(per.values())) <= 128:
            return s
    raise gen.NoSpec()


def no_pure(rng: Any) -> gen.Spec:
    """Two agents with opposed wishes about matching, perhaps a third one: no pure equilibrium."""
    s = gen.Spec()
    s.kind = "macid"
    names = list(rng.choice(gen.NAME_POOLS))
    rng.shuffle(names)
    a, b, u, w, c, x = names[:6]
    third = rng.random() < 0.6
    s.nodes = [a, b, u, w] + ([c, x] if third else [])
    s.edges = [(a, u), (b, u), (b, w), (a, w)] + ([(c, x)] + ([(a, x)] if rng.random() < 0.5 else []) if third else [])
    s.agents = {1: {"D": [a], "U": [u]}, 0: {"D": [b], "U": [w]}}
    if third:
        s.agents[2] = {"D": [c], "U": [x]}
    for d in s.decisions:
        s.dom[d] = gen.rand_domain(rng, 2)
        s.style[d] = "list"
        s.nopolicy.add(d)
    lo = rng.choice([-1, 0, 2])
    for v in s.utilities:
        s.dom[v] = [lo, lo + rng.choice([1, 3])]
        s.style[v] = rng.choice(["func", "tab"])
    eye = np.eye(2)
    s.tables[u] = np.array([[eye[int(i == j)] for j in (0, 1)] for i in (0, 1)])
    s.tables[w] = np.array([[eye[int(i != j)] for j in (0, 1)] for i in (0, 1)])
    if third:
        s.tables[x] = gen.rand_table(rng, [len(s.dom[p]) for p in s.parents(x)], 2, "free")
    rng.shuffle(s.nodes)
    return s


def gen_acyclic(s: gen.Spec) -> bool:
    try:
        gen.topo_order(s)
        return True
    except ValueError:
        return False


def run_case(case: Dict[str, Any], m: Any) -> None:
    from pycid.export.gambit import macid_to_efg

    rng = rng_of("C18", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = [n for n in example_builders() if "macids." in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        if not all(model.get_cpds(v) is not None for v in model.nodes) or type(model).__name__ != "MACID":
            m.event("example_without_mechanisms")
            return
        s = gen.Spec()
        s.kind, s.nodes, s.edges = "macid", list(model.nodes), list(model.edges)
        s.agents = {a: {"D": list(model.agent_decisions.get(a, [])), "U": list(model.agent_utilities[a])} for a in model.agents}
        s.dom = {v: list(model.model.domain[v]) for v in s.nodes}
        s.nopolicy = set(s.decisions)
        for v in s.nodes:
            if v not in s.nopolicy:
                s.tables[v] = gen.cpd_to_table(model, v, s.parents(v), s.dom)
        per = {a: np.prod([len(s.dom[d]) ** int(np.prod([len(s.dom[p]) for p in s.parents(d)] or [1])) for d in x["D"]], dtype=float) for a, x in s.agents.items()}
        nodes = set(s.decisions) | {p for d in s.decisions for p in s.parents(d)}
        if max(per.values()) > 64 or np.prod(list(per.values())) > 512 or np.prod([len(s.dom[v]) for v in nodes], dtype=float) > 48:
            m.event("example_too_large")
            return
        own = {a: x["D"] for a, x in s.agents.items()}
        if any(len(ds) > 1 for ds in own.values()) and not recalls(s):
            m.event("example_without_perfect_recall")
            return
    else:
        s = no_pure(rng) if kind == "nopure" else make_game(rng, kind)
        model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    net = s.net()
    game = game_of(s, net)
    agents = {a: x["D"] for a, x in s.agents.items() if x["D"]}
    others = {a: [d for d in s.decisions if d not in ds] for a, ds in agents.items()}
    sc = scale(s)
    full = net.with_policy({d: uniform(net, d) for d in s.decisions})
    for d in s.decisions:
        if net.parents[d]:
            m.event("impossible_contexts", int((full.weight(net.parents[d], {}) < 1e-12).any()))
    two = len(agents) == 2
    if kind == "exact":
        solvers = ["enumpure"] + ([None] if not two else [])
    else:
        solvers = [None] + (["enumpure"] if rng.random() < 0.7 else [])
    if two and kind != "exact":
        solvers += [x for x in ("enummixed", "lcp") if rng.random() < 0.35]
    if kind == "zerosum":
        solvers.append("lp")
    if kind != "exact" and rng.random() < 0.25:
        solvers.append(rng.choice(["simpdiv", "gnm"]))
    exact_ties = dyadic(macid_to_efg(model)[0], len(s.agents)) if kind == "exact" else False
    if kind in ("two", "three") and case["i"] % 12 == 3:
        ipa(m, model, s, game, agents, sc)
    for solver in solvers:
        try:
            nes = model.get_ne() if solver is None else model.get_ne(solver=solver)
        except RuntimeError as e:  # rounding errors in the payoffs make gambit refuse
            if solver == "lp" and "constant-sum" in say(e):
                m.event("lp_refused")
                continue
            raise
        except ValueError:
            if solver == "lp" and not lp_normalised(model):
                m.event("lp_result_not_normalised")
                continue
            raise
        name = solver or "default"
        m.event("solver_" + name)
        m.evaluated([kind, s.describe(), name])
        pols = []
        eff = solver or ("enummixed" if two else "enumpure")
        keep = nes if eff == "enumpure" else rng.sample(nes, min(len(nes), 25))
        for n, ne in enumerate(keep):
            pol = profile_tables(m, ne, s, s.decisions, f"get_ne-{name}")
            if pol is None:
                return
            pols.append(pol)
            m.event("profiles_judged")
            mixed = any(np.any((t > 1e-6) & (t < 1 - 1e-6)) for t in pol.values())
            m.event("mixed_profiles", int(mixed))
            loose = eff in ("simpdiv", "ipa") or (solver is None and not two and mixed)
            tol = (1e-2 if loose else 1e-6) * sc
            for a, ds in agents.items() if n < 40 else ():
                g = gain(game, a, ds, pol)
                m.require(g <= tol, f"not-an-equilibrium-{name}", f"get_ne(solver={solver}): agent {a!r} gains {g} by deviating", s.describe)
        if eff == "gnm" and not pols:
            m.event("gnm_found_nothing")
            continue
        if eff != "enumpure":
            m.require(bool(pols), f"no-equilibrium-{name}", f"get_ne(solver={solver}) reports no equilibrium of a finite game", s.describe)
            continue
        sure, _ = pure_equilibria(game, agents, {}, 1e-12)
        if not sure:
            m.event("no_pure_equilibrium")
            if solver is None:
                m.require(bool(pols), "no-equilibrium-default", "get_ne() reports no equilibrium of a finite game", s.describe)
            continue
        have = {tuple(reduced(net, ds, p, others[a]) for a, ds in agents.items()) for p in pols}
        done = set()
        for p in sure:
            key = tuple(reduced(net, ds, p, others[a]) for a, ds in agents.items())
            if key in done:
                continue
            done.add(key)
            if not exact_ties and not strict(game, agents, p, net, others, 1e-9 * sc):
                m.event("tie_not_judged")
                continue
            if exact_ties:
                m.event("ties_judged")
            m.event("pure_equilibria_expected")
            m.require(key in have, "pure-equilibrium-missed", f"get_ne(solver={solver}) reports {len(pols)} equilibria and misses a pure one", lambda: {"model": s.describe(), "equilibrium": {d: t.tolist() for d, t in p.items()}})


def lp_normalised(model: Any) -> bool:
    """Whether what gambit itself returns is a behaviour profile at all (its lp is known to drop mass off the path)."""
    import pygambit
    from pycid.export.gambit import macid_to_efg

    efg, infosets = macid_to_efg(model)
    return all(abs(sum(float(x) for x in b[i]) - 1) < 1e-3 or sum(float(x) for x in b[i]) == 0 for b in pygambit.nash.lp_solve(efg, rational=False) for i in infosets.values())


def ipa(m: Any, model: Any, s: gen.Spec, game: Any, agents: Any, sc: float) -> None:
    """The solver may not end, so a child process asks it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(4)
        out = [{c.variable: gen.factor_table(c, c.variable, s.parents(c.variable), s.dom) for c in ne} for ne in model.get_ne(solver="ipa")]
        os.write(w, pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        m.event("ipa_did_not_end")
        return
    m.event("solver_ipa")
    for pol in pickle.loads(data):
        if not m.expect(sorted(pol) == sorted(s.decisions), "get_ne-ipa-decisions", f"a profile assigns rules to {sorted(pol)}", s.describe):
            return
        for a, ds in agents.items():
            g = gain(game, a, ds, pol)
            if g > 1e-2 * sc:
                m.event("ipa_not_converged")
                m.violation("not-an-equilibrium-ipa", f"get_ne(solver='ipa'): agent {a!r} gains {g} by deviating", s.describe())


def recalls(s: gen.Spec) -> bool:
    """Each later decision of an agent observes its earlier ones and what they observed."""
    topo = gen.topo_order(s)
    for x in s.agents.values():
        ds = sorted(x["D"], key=topo.index)
        for i, d in enumerate(ds):
            for e in ds[:i]:
                if not set(s.parents(e) + [e]) <= set(s.parents(d)):
                    return False
    return True
