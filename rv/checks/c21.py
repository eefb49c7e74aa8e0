"""C21: random mechanisms are fixed, valid, reproducible and leave the random state alone."""
from __future__ import annotations

import copy
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
from typing import Any, Dict, List

import numpy as np

from rv.common import make_cases, rng_of, seed_globals

RULE = (
    "mechanisms over domains of 1 to 6 outcomes of several types, smoothness from 1e-8 to 1e8, seeds from 0 to 2**32-1 and unset, "
    "called on every assignment of up to four parents in shuffled argument orders, interleaved with other mechanisms, other random "
    "draws and re-seeding, inside models and their copies, with failing evaluations, and in interpreters with other hash seeds. "
    "Distinct by domain, smoothness, seed and assignment."
)
ASSUMPTIONS = ["assignments use outcomes with a stable repr (strings, numbers, booleans, tuples)"]
MIN_EVENTS = {
    "evaluations": 4000, "repeats_compared": 800, "orders_compared": 500, "twins_compared": 1500, "state_unchanged": 4000, "seed_zero": 25, "large_seed": 20,
    "tiny_smoothness": 25, "huge_smoothness": 25, "failed_evaluations": 5, "model_tables": 120, "copies_compared": 60, "interpreters": 3, "separate_draws": 400,
}
TECHNIQUE = "runtime monitor on values and global random state, with child interpreters"


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, call=260 * k, fail=50 * k, model=40 * k, process=1 if tier == "quick" else 6, shape=40 * k)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C21", case)
    seed_globals(rng)
    {"call": call, "fail": fail, "model": model, "process": process, "shape": smooth}[case["kind"]](rng, m)


POOLS: List[List[Any]] = [[0, 1], ["a", "b", "c"], [-1.5, 0.0, 2.25], [False, True], [(0, 1), (1, 0)], [3], ["x", 1, None], [10, 20, 30, 40], list(range(6))]


def snapshot() -> Any:
    s = np.random.get_state()
    return (s[0], s[1].tolist(), s[2:], random.getstate())  # type: ignore


def evaluate(m: Any, cpd: Any, pv: Dict[str, Any], domain: List[Any], wit: Any) -> List[float]:
    before = snapshot()
    out = cpd(**pv)
    after = snapshot()
    m.event("evaluations")
    m.require(before == after, "random-state-changed", f"evaluating at {pv} changed the global random state", wit)
    m.event("state_unchanged")
    m.require(list(map(repr, sorted(out, key=repr))) == sorted(map(repr, domain)), "wrong-outcomes", f"outcomes {list(out)} instead of {domain}", wit)
    p = [float(out[o]) for o in domain]
    m.require(bool(np.isfinite(p).all()) and min(p) >= 0 and abs(sum(p) - 1) < 1e-9, "not-a-distribution", f"at {pv}: {out}", wit)
    return p


def make(rng: Any, smooth: Any = None) -> Any:
    domain = list(rng.choice(POOLS))
    seed = rng.choice([None, 0, 0, 1, 7, rng.randrange(10000), rng.randrange(2**31), 2**31 - 1, 2**32 - 1, np.int64(rng.randrange(100))])
    sm = smooth if smooth is not None else rng.choice([1e-8, 1e-4, 0.001, 0.01, 0.3, 1.0, 1.0, 2, 10, 1000, 1e8])
    given: Any = None if repr(domain) == "[0, 1]" and rng.random() < 0.5 else rng.choice([list, tuple])(domain)
    return domain, {"domain": given, "smoothness": sm, "seed": seed}


def assignments(rng: Any) -> List[Dict[str, Any]]:
    names = rng.sample(["A", "B", "X1", "zeta", "U", "q"], rng.randint(0, 4))
    doms = [rng.choice(POOLS[:5]) for _ in names]
    out = [dict(zip(names, c)) for c in itertools.product(*doms)]
    return rng.sample(out, min(len(out), 12))


def disturb(rng: Any, other: Any) -> None:
    k = rng.randrange(4)
    if k == 0:
        np.random.rand(rng.randint(1, 5))
        random.random()
    elif k == 1:
        np.random.seed(rng.randrange(2**31))
        random.seed(rng.randrange(2**31))
    elif k == 2:
        other(A=1, zeta=rng.randrange(5))
    else:
        np.random.normal(size=3)  # leaves a cached gaussian in the state


def call(rng: Any, m: Any) -> None:
    import pycid

    domain, kw = make(rng)
    cpd = pycid.RandomCPD(**kw)
    seed = kw["seed"]
    m.event("seed_zero", int(seed == 0 and seed is not None))
    m.event("large_seed", int(seed is not None and seed >= 2**31 - 1))
    other = pycid.RandomCPD(seed=rng.randrange(100))
    twin = pycid.RandomCPD(**{**kw, "domain": list(domain)}) if seed is not None else copy.deepcopy(cpd)
    dup = rng.choice([copy.copy, copy.deepcopy, lambda c: pickle.loads(pickle.dumps(c))])(cpd)
    wit = lambda: {k: repr(v) for k, v in kw.items()}  # noqa: E731
    first: List[Any] = []
    pvs = assignments(rng)
    for pv in pvs:
        first.append(evaluate(m, cpd, pv, domain, wit))
        m.evaluated([repr(kw), repr(sorted(pv.items()))])
        if rng.random() < 0.3:
            disturb(rng, other)
    for i in rng.sample(range(len(pvs)), len(pvs)):
        if rng.random() < 0.5:
            disturb(rng, other)
        items = list(pvs[i].items())
        rng.shuffle(items)
        m.event("orders_compared", int(items != list(pvs[i].items())))
        for who, c in (("it", cpd), ("a mechanism with the same seed", twin), ("a copy", dup)):
            p = evaluate(m, c, dict(items), domain, wit)
            m.event("repeats_compared" if c is cpd else "twins_compared")
            m.require(p == first[i], "not-fixed", f"at {pvs[i]} {who} gives {p}, before {first[i]}", wit)


def smooth(rng: Any, m: Any) -> None:
    """Small smoothness concentrates, large smoothness flattens; assignments and seeds are drawn separately."""
    import pycid

    n = rng.choice([2, 3, 5])
    pvs = [{"A": i, "B": j} for i in range(8) for j in "xyz"]
    for sm, kind in ((rng.choice([1e-3, 1e-4]), "tiny"), (rng.choice([1e4, 1e6]), "huge"), (1.0, "one")):
        cpd = pycid.RandomCPD(domain=list(range(n)), smoothness=sm, seed=rng.randrange(2**31))
        wit = lambda: {"domain": n, "smoothness": sm, "seed": cpd.seed}  # noqa: E731,B023
        ps = np.array([evaluate(m, cpd, pv, list(range(n)), wit) for pv in pvs])
        m.evaluated([kind, n, cpd.seed])
        if kind == "tiny":
            m.event("tiny_smoothness")
            m.require(float(ps.max(axis=1).mean()) > 0.9, "smoothness-ignored", f"smoothness {sm}: the largest probability is {ps.max(axis=1).mean()} on average", wit)
            m.require(len(set(ps.argmax(axis=1).tolist())) > 1, "same-outcome", "all assignments favour the same outcome", wit)
        elif kind == "huge":
            m.event("huge_smoothness")
            m.require(float(abs(ps - 1 / n).max()) < 0.1, "smoothness-ignored", f"smoothness {sm}: a probability is {abs(ps - 1 / n).max()} away from uniform", wit)
        else:
            m.event("separate_draws", len(pvs))
            m.require(len({tuple(p) for p in ps.tolist()}) > len(pvs) // 2, "same-distribution", "different assignments have the same distribution", wit)
            q = pycid.RandomCPD(domain=list(range(n)), seed=cpd.seed + 1)
            m.require(any(list(q(**pv).values()) != list(cpd(**pv).values()) for pv in pvs), "seed-ignored", "another seed gives the same mechanism", wit)


def fail(rng: Any, m: Any) -> None:
    """Evaluations that fail, on invalid smoothness and on an injected fault, must restore the random state too."""
    import pycid

    disturb(rng, pycid.RandomCPD(seed=3))
    before = snapshot()
    try:
        pycid.RandomCPD(domain=[0, 1], smoothness=rng.choice([-1.0, -0.5, "x"]), seed=rng.randrange(50))(A=rng.randrange(3))
    except (ValueError, TypeError):
        m.event("failed_evaluations")
    m.evaluated(["fail", repr(before[1][:3])])
    m.require(snapshot() == before, "random-state-after-failure", "a failed evaluation changed the global random state")

    class Injected(Exception):
        pass

    def boom(*a: Any, **k: Any) -> Any:
        raise Injected()

    cpd = pycid.RandomCPD(domain=[0, 1, 2], seed=rng.randrange(50))
    names = [x for x in ("dirichlet", "gamma", "standard_gamma", "rand", "random", "uniform") if hasattr(np.random, x)]
    saved = {x: getattr(np.random, x) for x in names}
    for x in names:
        setattr(np.random, x, boom)
    try:
        cpd(A=1)
    except Injected:
        m.event("faults_injected")
    finally:
        for x in names:
            setattr(np.random, x, saved[x])
    m.require(snapshot() == before, "random-state-after-failure", "an evaluation interrupted by a fault changed the global random state")


def model(rng: Any, m: Any) -> None:
    import pycid

    names = ["A", "B", "C", "E"]
    edges = [("A", "B"), ("A", "C"), ("B", "C"), ("C", "E")][: rng.randint(1, 4)]
    nodes = [v for v in names if any(v in e for e in edges)]
    sm = rng.choice([0.1, 1.0, 5.0])
    doms = {v: list(rng.choice([[0, 1], ["a", "b", "c"], [-1, 0, 1]])) for v in nodes}
    cpds = {v: pycid.RandomCPD(domain=doms[v], smoothness=sm, seed=rng.choice([0, 1, rng.randrange(10**6)])) for v in nodes}
    cbn = pycid.CausalBayesianNetwork(edges)
    cbn.add_nodes_from(nodes)
    before = snapshot()
    cbn.add_cpds(**cpds)
    other = cbn.copy()
    m.require(snapshot() == before, "random-state-changed", "adding the mechanisms to a model changed the global random state")
    m.evaluated(["model", edges, {v: (doms[v], cpds[v].seed) for v in nodes}, sm])
    for label, mod in (("model", cbn), ("copy", other)):
        for v in nodes:
            t = mod.get_cpds(v)
            m.event("model_tables")
            m.event("copies_compared", int(label == "copy"))
            pa = [a for a, b in edges if b == v]
            vs = list(t.variables)
            vals = np.asarray(t.values)
            for combo in itertools.product(*[doms[p] for p in pa]):
                pv = dict(zip(pa, combo))
                want = cpds[v](**pv)
                for o in doms[v]:
                    at = tuple(list(t.state_names[x]).index(o if x == v else pv[x]) for x in vs)
                    m.require(abs(float(vals[at]) - float(want[o])) < 1e-9, "table-differs", f"{label}: P({v}={o}|{pv}) is {vals[at]}, the mechanism says {want[o]}", {"edges": edges})


CHILD = """
import sys, json, warnings
warnings.simplefilter("ignore")
import os
sys.path.insert(0, os.environ.get("RV_REPO", "/repo"))
import pycid
out = []
for kw, pvs in json.load(sys.stdin):
    c = pycid.RandomCPD(**kw)
    out.append([[float(p) for p in c(**pv).values()] for pv in pvs])
print("RESULT" + json.dumps(out))
"""


def process(rng: Any, m: Any) -> None:
    """The same seeds in interpreters with other hash seeds."""
    import pycid

    jobs: List[Any] = []
    for _ in range(25):
        kw = {"domain": list(rng.choice([[0, 1], ["a", "b", "c"], [1.5, 2.5]])), "smoothness": rng.choice([0.1, 1.0, 10.0]), "seed": rng.choice([0, 1, rng.randrange(10**6)])}
        names = rng.sample(["A", "B", "X1", "zeta"], rng.randint(0, 3))
        jobs.append((kw, [{x: rng.choice([0, 1, "a", "b", 2.5, True]) for x in names} for _ in range(4)]))
    want = [[[float(p) for p in pycid.RandomCPD(**kw)(**pv).values()] for pv in pvs] for kw, pvs in jobs]
    for h in ("1", "2024", "random"):
        r = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(jobs), capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": h}, timeout=300)
        lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
        m.require(bool(lines), "child-failed", f"the interpreter with hash seed {h} failed: {r.stderr[-800:]}")
        got = json.loads(lines[0][6:])
        m.event("interpreters")
        m.evaluated(["process", h, repr(jobs[0])])
        for (kw, pvs), g, w in zip(jobs, got, want):
            m.require(bool(np.allclose(g, w, atol=1e-12)), "differs-between-interpreters", f"RandomCPD({kw}) at {pvs}: {g} under hash seed {h}, {w} here")
