"""C30: bundled examples are the published models, complete, and fresh on every call."""
from __future__ import annotations

import base64
import itertools
import json
import os
import pathlib
import pickle
import random
import subprocess
import sys
from typing import Any, Callable, Dict, List, Tuple

import numpy as np

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals

RULE = (
    "every bundled example, built again and again in random order while earlier results are changed in place (mechanisms, edges, roles, tables, domain "
    "lists), interventions and policies imputed, global random states moved and questions asked, also in interpreters with other hash seeds; each result "
    "against a transcription of the example (kind, nodes, edges, agents, roles, domains in order, tables), and the payoffs and numbers of equilibria the "
    "descriptions state, read off by queries and solvers. Distinct by example, position in the series and what was done before."
)
ASSUMPTIONS = ["the transcription in rv/examples.json was reviewed against the descriptions and the papers the examples come from; payoff matrices and counts of equilibria are transcribed separately"]
MIN_EVENTS = {"examples_compared": 1200, "tampered": 900, "rebuilt_after_tampering": 500, "payoffs_compared": 80, "claims": 12, "interpreters": 2, "compared_elsewhere": 60, "tables_compared": 3000}
TECHNIQUE = "runtime monitor: builds compared with a transcription over hostile histories and interpreters; documented claims solved"
VERIF = str(pathlib.Path(__file__).resolve().parents[2])


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 12
    return make_cases(seed, elsewhere=2 * k) + make_cases(seed, series=24 * k, payoff=len(PAYOFFS), claim=len(CLAIMS))


# -- what is seen of a model ------------------------------------------------------------------------------------------
def seen(model: Any) -> Dict[str, Any]:
    out: Dict[str, Any] = {"kind": type(model).__name__, "nodes": sorted(model.nodes), "edges": sorted([a, b] for a, b in model.edges)}
    if hasattr(model, "agent_decisions"):
        out["decisions"] = sorted([repr(a), sorted(x)] for a, x in model.agent_decisions.items())
        out["utilities"] = sorted([repr(a), sorted(x)] for a, x in model.agent_utilities.items())
    tables: Dict[str, Any] = {}
    domains: Dict[str, Any] = {}
    for v in sorted(model.nodes):
        c = model.get_cpds(v)
        if c is None:
            continue
        domains[v] = [repr(plain(o)) for o in model.model.domain[v]]
        if isinstance(c, open_rule()):
            tables[v] = "open"
            continue
        pa = sorted(model.get_parents(v))
        dom = {x: list(model.model.domain[x]) for x in [v] + pa}
        tables[v] = np.round(gen.factor_table(c, v, pa, dom), 12).tolist()
    out["domains"], out["tables"] = domains, tables
    return out


def open_rule() -> Any:
    from pycid.core.cpd import DecisionDomain

    return DecisionDomain


def plain(o: Any) -> Any:
    return o.item() if isinstance(o, np.generic) else o


def differences(want: Dict[str, Any], got: Dict[str, Any]) -> List[str]:
    out = []
    for k in want:
        if k in ("tables", "domains"):
            for v in sorted(set(want[k]) | set(got[k])):
                a, b = want[k].get(v), got[k].get(v)
                if k == "tables" and isinstance(a, list) and isinstance(b, list):
                    x, y = np.array(a), np.array(b)
                    if x.shape != y.shape or not np.allclose(x, y, atol=1e-9):
                        out.append(f"table of {v}: {str(b)[:200]} instead of {str(a)[:200]}")
                elif a != b:
                    out.append(f"{k[:-1]} of {v}: {str(b)[:200]} instead of {str(a)[:200]}")
        elif want[k] != got.get(k):
            out.append(f"{k}: {str(got.get(k))[:300]} instead of {str(want[k])[:300]}")
    return out


def book() -> Dict[str, Any]:
    return json.loads((pathlib.Path(VERIF) / "rv" / "examples.json").read_text())


def swapped(m: Any, name: str, got: Dict[str, Any], difference: str) -> bool:
    """The one listed deviation of a bundled example: in battle_of_the_sexes D_F and U_F belong to M, D_M and U_M to F."""
    if not name.endswith("battle_of_the_sexes") or difference.split(":")[0] not in ("decisions", "utilities"):
        return False
    if got["decisions"] != [["'F'", ["D_M"]], ["'M'", ["D_F"]]] or got["utilities"] != [["'F'", ["U_M"]], ["'M'", ["U_F"]]]:
        return False
    m.expect(False, "battle-of-the-sexes-players", f"{name}: {difference}")
    return True


def judge(m: Any, name: str, model: Any, want: Dict[str, Any], how: Any) -> None:
    got = seen(model)
    m.event("examples_compared")
    m.event("tables_compared", len(got["tables"]))
    m.evaluated([name, how])
    diff = [x for x in differences(want, got) if not swapped(m, name, got, x)]
    m.require(not diff, "not-the-example", f"{name} ({'fresh' if not how else 'after ' + str(how)[:300]}): {'; '.join(diff[:4])}", lambda: {"example": name, "before": how})
    for v, t in got["tables"].items():
        if t != "open":
            m.require(bool(np.allclose(np.array(t).sum(axis=-1), 1)), "rows", f"{name}: the rows of {v} do not sum to one")
    if got["tables"] and len(got["tables"]) == len(got["nodes"]):
        m.require(model.check_model() is True or model.check_model() is None, "check-model", f"{name} does not pass check_model")


# -- things done to models that were handed out -----------------------------------------------------------------------
def tamper(rng: random.Random, model: Any) -> str:
    """Change a returned model as thoroughly as a user could."""
    vs = list(model.nodes)
    if not vs:
        return "nothing left"
    v = rng.choice(vs)
    has = model.get_cpds(v) is not None
    what = rng.choice(["table", "domain", "roles", "edges", "mechanism", "node", "lists", "intervene", "policy", "ask"])
    try:
        if what == "table" and has:
            model.get_cpds(v).values *= 0.0
        elif what == "domain" and v in model.model.domain and isinstance(model.model.domain[v], list):
            model.model.domain[v].append("tampered")
        elif what == "roles" and hasattr(model, "make_decision"):
            getattr(model, rng.choice(["make_decision", "make_chance", "make_utility"]))(v)
        elif what == "edges":
            a, b = rng.choice(list(model.edges))
            model.remove_edge(a, b)
        elif what == "mechanism":
            model.add_cpds(**{v: {7: 0.5, 9: 0.5}})
        elif what == "node":
            model.remove_node(v)
        elif what == "lists" and hasattr(model, "agent_decisions"):
            for x in list(model.agent_decisions.values()) + list(model.agent_utilities.values()):
                x.clear()
        elif what == "intervene" and has:
            model.intervene({v: model.model.domain[v][0]})
        elif what == "policy" and hasattr(model, "impute_random_policy"):
            model.impute_random_policy()
        elif what == "ask" and has:
            model.query([v], {})
    except Exception:  # noqa: BLE001
        what += " (refused)"
    return what


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C30", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "series":
        want = book()
        builders = example_builders()
        names = sorted(set(want) & set(builders))
        m.require(set(want) <= set(builders), "example-missing", f"examples {sorted(set(want) - set(builders))} are gone")
        done: Dict[str, List[str]] = {}
        kept: List[Tuple[str, Any]] = []
        for name in rng.sample(names, len(names)):
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.2:
                    seed_globals(rng)
                model = builders[name]()
                if done.get(name):
                    m.event("rebuilt_after_tampering")
                judge(m, name, model, want[name], list(done.get(name, [])))
                for _ in range(rng.choice([0, 1, 2, 3])):
                    done.setdefault(name, []).append(tamper(rng, model))
                    m.event("tampered")
                if rng.random() < 0.3:
                    kept.append((name, builders[name]()))
            if done.get(name):
                m.event("rebuilt_after_tampering")
                judge(m, name, builders[name](), want[name], list(done[name]))
        for name, model in kept:  # models handed out earlier have not seen what was done to the others
            judge(m, name, model, want[name], ["others"] + done.get(name, []))
        return
    if kind == "payoff":
        return payoff(m, rng, PAYOFFS[case["i"]])
    if kind == "claim":
        name, what, f, want = CLAIMS[case["i"]]
        got = f(example_builders()[name]())
        m.event("claims")
        m.evaluated([name, what])
        return m.require(got == want, "claim", f"{name}: {what} is {got!r}, the description says {want!r}")
    elsewhere(m, rng)


# -- what the descriptions state --------------------------------------------------------------------------------------
# example, row decision and moves, column decision and moves, row player's utility, column player's utility, payoffs
PAYOFFS: List[Tuple[Any, ...]] = [
    ("simple_macids.two_agent_one_pne", ("D1", [0, 1], "U1", 1), ("D2", [0, 1], "U2", 2), [[(1, 2), (3, 0)], [(0, 3), (2, 2)]]),
    ("simple_macids.two_agent_two_pne", ("D1", [0, 1], "U1", 0), ("D2", [0, 1], "U2", 1), [[(1, 1), (4, 2)], [(2, 4), (3, 3)]]),
    ("simple_macids.two_agent_no_pne", ("D1", [0, 1], "U1", 0), ("D2", [0, 1], "U2", 1), [[(1, 0), (0, 1)], [(0, 1), (1, 0)]]),
    ("simple_macids.two_agents_three_actions", ("D1", ["T", "M", "B"], "U1", 1), ("D2", ["L", "C", "R"], "U2", 2), [[(4, 3), (5, 1), (6, 2)], [(2, 1), (8, 4), (3, 6)], [(3, 0), (9, 6), (2, 8)]]),
    ("story_macids.prisoners_dilemma", ("D1", ["c", "d"], "U1", 1), ("D2", ["c", "d"], "U2", 2), [[(-1, -1), (-3, 0)], [(0, -3), (-2, -2)]]),
    ("story_macids.battle_of_the_sexes", ("D_F", ["O", "F"], "U_F", "F"), ("D_M", ["O", "F"], "U_M", "M"), [[(3, 2), (0, 0)], [(0, 0), (2, 3)]]),
    ("story_macids.matching_pennies", ("D1", ["H", "T"], "U1", 1), ("D2", ["H", "T"], "U2", 2), [[(1, -1), (-1, 1)], [(-1, 1), (1, -1)]]),
    ("story_macids.taxi_competition", ("D1", ["e", "c"], "U1", 1), ("D2", ["e", "c"], "U2", 2), [[(2, 2), (5, 3)], [(3, 5), (1, 1)]]),
    ("story_macids.modified_taxi_competition", ("D1", ["e", "c"], "U1", 1), ("D2", ["e", "c"], "U2", 2), [[(2, 2), (5, 3)], [(3, 5), (1, 5)]]),
]


def payoff(m: Any, rng: random.Random, row: Tuple[Any, ...]) -> None:
    name, (d, moves, u, a), (e, others, w, b), table = row
    model = example_builders()[name]()
    if (model.decision_agent, model.utility_agent) == ({"D_F": "M", "D_M": "F"}, {"U_F": "M", "U_M": "F"}):
        m.expect(False, "battle-of-the-sexes-players", f"{name}: decisions of {model.decision_agent}, utilities of {model.utility_agent}")
        a, b = b, a
    m.require(model.decision_agent == {d: a, e: b} and model.utility_agent == {u: a, w: b}, "players", f"{name}: decisions of {model.decision_agent}, utilities of {model.utility_agent}")
    for (i, x), (j, y) in itertools.product(enumerate(moves), enumerate(others)):
        got = tuple(model.expected_utility({d: x, e: y}, agent=k) for k in (a, b))
        m.event("payoffs_compared", 2)
        m.evaluated([name, str(x), str(y)])
        m.require(bool(np.allclose(got, table[i][j])), "payoff", f"{name}: {d}={x!r}, {e}={y!r} gives {got}, the description says {table[i][j]}")


def pure(n: str) -> Callable[[Any], Any]:
    return lambda model: len(model.get_ne(solver="enumpure"))


def moves(nes: List[Any], model: Any) -> List[Any]:
    return sorted(sorted((c.variable, str(model.model.domain[c.variable][int(np.argmax(np.asarray(c.values)))])) for c in ne) for ne in nes)


def mixed(model: Any) -> int:
    return sum(any(((np.asarray(c.values) > 1e-6) & (np.asarray(c.values) < 1 - 1e-6)).any() for c in ne) for ne in model.get_ne())


def spe(model: Any) -> int:
    return len(model.get_spe(solver="enumpure"))


CLAIMS: List[Tuple[str, str, Callable[[Any], Any], Any]] = [
    ("simple_macids.two_agent_one_pne", "the number of pure equilibria", pure(""), 1),
    ("simple_macids.two_agent_two_pne", "the number of pure equilibria", pure(""), 2),
    ("simple_macids.two_agent_no_pne", "the number of pure equilibria", pure(""), 0),
    ("simple_macids.two_agents_three_actions", "the pure equilibria", lambda x: moves(x.get_ne(solver="enumpure"), x), [[("D1", "T"), ("D2", "L")]]),
    ("simple_macids.basic_different_dec_cardinality", "the number of pure subgame perfect equilibria", spe, 1),
    ("story_macids.prisoners_dilemma", "the pure equilibria", lambda x: moves(x.get_ne(solver="enumpure"), x), [[("D1", "d"), ("D2", "d")]]),
    ("story_macids.battle_of_the_sexes", "the pure equilibria", lambda x: moves(x.get_ne(solver="enumpure"), x), [[("D_F", "F"), ("D_M", "F")], [("D_F", "O"), ("D_M", "O")]]),
    ("story_macids.battle_of_the_sexes", "the number of mixed equilibria", mixed, 1),
    ("story_macids.matching_pennies", "the number of pure equilibria", pure(""), 0),
    ("story_macids.matching_pennies", "the number of mixed equilibria", mixed, 1),
    ("story_macids.taxi_competition", "the number of pure equilibria", pure(""), 3),
    ("story_macids.taxi_competition", "the number of mixed equilibria", mixed, 1),
    ("story_macids.taxi_competition", "the number of pure subgame perfect equilibria", spe, 1),
    ("story_macids.modified_taxi_competition", "the number of pure subgame perfect equilibria", spe, 2),
    ("simple_macids.subgame_mixed_spe", "the number of pure equilibria of its first pair", lambda x: len(x.get_ne_in_sg(["D2", "D3"], solver="enumpure")), 0),
    ("simple_cids.get_sequential_cid", "sufficient recall", lambda x: bool(x.sufficient_recall()), True),
    ("simple_cids.get_insufficient_recall_cid", "sufficient recall", lambda x: bool(x.sufficient_recall()), False),
    ("story_macids.forgetful_movie_star", "sufficient recall of the movie star", lambda x: bool(x.sufficient_recall(1)), False),
]


# -- other interpreters -----------------------------------------------------------------------------------------------
CHILD = """
import sys, pickle, base64, warnings, os
warnings.simplefilter("ignore")
import logging; logging.disable(logging.WARNING)
sys.path[:0] = [os.environ.get("RV_REPO", "/repo"), %r]
from rv.checks import c30
from rv.common import example_builders
print("RESULT" + base64.b64encode(pickle.dumps({n: c30.seen(f()) for n, f in example_builders().items()})).decode())
"""


def elsewhere(m: Any, rng: random.Random) -> None:
    h = str(rng.randrange(1, 2**31))
    r = subprocess.run([sys.executable, "-c", CHILD % VERIF], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": h}, timeout=300)
    lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
    m.require(bool(lines), "child-failed", f"the interpreter with hash seed {h} failed: {r.stderr[-1500:]}")
    m.event("interpreters")
    got = pickle.loads(base64.b64decode(lines[0][6:]))
    want = book()
    for name in sorted(want):
        m.event("compared_elsewhere")
        m.evaluated([name, "hash seed", h])
        m.require(name in got, "example-missing", f"{name} is gone")
        diff = [x for x in differences(want[name], got[name]) if not swapped(m, name, got[name], x)]
        m.require(not diff, "not-the-example-elsewhere", f"{name} in an interpreter with hash seed {h}: {'; '.join(diff[:4])}")
