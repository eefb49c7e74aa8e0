"""C23: samples are jointly possible assignments of outcomes, reproducible by seed, with the model's joint frequencies."""
from __future__ import annotations

import itertools
import math
from collections import Counter
from typing import Any, Dict, List, Tuple

import numpy as np

from rv import gen
from rv.common import example_builders, install_policies, make_cases, random_policies, rng_of, seed_globals
from rv.ref import Net

RULE = (
    "chance networks and diagrams with installed policies of two to six variables with string, boolean, negative and fractional "
    "outcomes in any order, deterministic, sparse and free mechanisms, with and without latent variables, before and after interventions and replaced mechanisms and on copies; "
    "single draws, seeded draws repeated between other operations, and series of 150 to 2500 draws with and without seeds whose joint "
    "and pairwise frequencies are compared with the reference joint distribution. Distinct by model and seed."
)
ASSUMPTIONS = ["a frequency is refuted beyond 6.5 standard deviations plus two draws"]
TECHNIQUE = "runtime monitor with a statistical oracle over recorded draws"
MIN_EVENTS = {"samples": 9000, "models": 100, "impossible_assignments_exist": 40, "same_seed": 500, "frequencies": 1500, "after_intervention": 15, "with_policy": 20, "nonzero_start_domain": 40, "series": 30, "long_series": 4}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 14
    return make_cases(seed, few=300 * k, seeded=60 * k, series=60 * k, long=12 * k, example=10)


def make(rng: Any) -> Tuple[gen.Spec, Any, Net]:
    if rng.random() < 0.5:
        s = gen.rand_spec(rng, n=(2, 6), modes=rng.choice([("free", "det"), ("sparse", "free"), ("det",), ("free", "coarse")]))
        model = gen.build(rng, gen.add_latents(rng, s, 0.15))
        return s, model, s.net()
    s = gen.retry(rng, gen.rand_diagram, kind=rng.choice(["cid", "macid"]), n=(3, 6), agents=1, labels=(0,), decs=(1, 2), maxdom=3, modes=("free", "sparse", "det"), max_rules=10**9, util_leaf=rng.random() < 0.7)
    model = gen.build(rng, gen.add_latents(rng, s, 0.15))
    pol = random_policies(rng, s, s.decisions, rng.choice(["free", "det", "sparse"]))
    install_policies(rng, s, model, pol)
    return s, model, s.net(pol)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C23", case)
    seed_globals(rng)
    if case["kind"] == "example":
        names = [n for n in example_builders() if "cbn" in n or "cids" in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        if hasattr(model, "decisions"):
            model.impute_fully_mixed_policy_profile()
        if any(model.get_cpds(v) is None for v in model.nodes):
            return
        net = gen.net_from_model(model)
        describe: Any = lambda: names[case["i"] % len(names)]  # noqa: E731
        if math.prod(len(net.dom[v]) for v in net.dom) > 5000:
            return
    else:
        s, model, net = make(rng)
        describe = s.describe
        if rng.random() < 0.25:
            iv = {v: rng.choice(net.dom[v]) for v in rng.sample(s.nodes, 1)}
            model = model.copy() if rng.random() < 0.5 else model
            model.intervene(iv)
            net = net.do(iv)
            m.event("after_intervention")
        elif rng.random() < 0.2:
            model = model.copy()
        m.event("with_policy", int(s.kind != "cbn"))
    names_ = [v for v in net.dom if v not in model.latents]
    joint = net.weight(names_, {})
    m.event("models")
    m.event("with_latent_variables", int(bool(model.latents)))
    m.event("impossible_assignments_exist", int(bool((joint <= 0).any())))
    m.event("nonzero_start_domain", int(any(list(d) != list(range(len(d))) for d in net.dom.values())))
    kind = case["kind"]
    if kind in ("few", "example"):
        for _ in range(6):
            one(rng, m, model, net, names_, joint, None if rng.random() < 0.5 else rng.randrange(2**32), describe)
        m.evaluated([describe(), case["i"]])
        return
    if kind == "seeded":
        seeds = [0, 1, 2**32 - 1] + [rng.randrange(2**32) for _ in range(12)]
        first = {}
        for sd in seeds:
            first[sd] = one(rng, m, model, net, names_, joint, sd, describe)
            m.evaluated([describe(), sd])
        for sd in rng.sample(seeds * 2, len(seeds) * 2):
            k = rng.randrange(3)
            if k == 0:
                np.random.rand(3)
            elif k == 1:
                model.sample()
            else:
                model.query([rng.choice(names_)], {})
            again = one(rng, m, model, net, names_, joint, sd, describe)
            m.event("same_seed")
            m.require(again == first[sd], "seed-not-reproducible", f"seed {sd} gives {first[sd]} and later {again}", describe)
        m.require(len({tuple(sorted(x.items(), key=lambda t: t[0])) for x in first.values()}) > 1 or joint.max() > 0.3, "seed-ignored", "every seed gives the same sample", describe)
        return
    n = rng.choice([150, 300]) if kind == "series" else rng.choice([1500, 2500])
    m.event("series")
    m.event("long_series", int(kind == "long"))
    start = None if rng.random() < 0.5 else rng.randrange(10**6)
    counts: Counter = Counter()
    for i in range(n):
        x = one(rng, m, model, net, names_, joint, None if start is None else start + i, describe)
        counts[tuple(net.idx(v, x[v]) for v in names_)] += 1
    m.evaluated([describe(), "series", n, start])
    frequencies(m, counts, n, joint, names_, net, describe)


def one(rng: Any, m: Any, model: Any, net: Net, names: List[str], joint: np.ndarray, seed: Any, describe: Any) -> Dict[str, Any]:
    x = model.sample() if seed is None else (model.sample(seed) if rng.random() < 0.5 else model.sample(seed=seed))
    m.event("samples")
    m.require(set(x) == set(names), "variables", f"the sample {x} does not assign exactly the observable variables", describe)
    for v in names:
        hit = [o for o in net.dom[v] if type_class(o) == type_class(x[v]) and o == x[v]]
        m.require(len(hit) == 1, "not-an-outcome", f"the sample gives {v} = {x[v]!r}, its outcomes are {net.dom[v]}", describe)
    p = joint[tuple(net.idx(v, x[v]) for v in names)]
    m.require(p > 0, "impossible-sample", f"the sample {x} has probability 0", describe)
    return dict(x)


def type_class(o: Any) -> str:
    if isinstance(o, (bool, np.bool_)):
        return "bool"
    return "num" if isinstance(o, (int, float, np.number)) else type(o).__name__


def frequencies(m: Any, counts: Counter, n: int, joint: np.ndarray, names: List[str], net: Net, describe: Any) -> None:
    tables = [((i,), None) for i in range(len(names))] + [(c, None) for c in itertools.combinations(range(len(names)), 2)] + [(tuple(range(len(names))), None)]
    for axes, _ in tables:
        want = joint.sum(axis=tuple(i for i in range(len(names)) if i not in axes))
        have: Counter = Counter()
        for idx, c in counts.items():
            have[tuple(idx[i] for i in axes)] += c
        for idx in np.ndindex(*want.shape):
            p = float(want[idx])
            m.event("frequencies")
            z = abs(have[idx] - n * p)
            at = {names[a]: net.dom[names[a]][i] for a, i in zip(axes, idx)}
            m.require(z <= 6.5 * math.sqrt(max(n * p * (1 - p), 0)) + 2, "wrong-frequency", f"{at} occurs {have[idx]} times in {n} draws, its probability is {p:.5f}", describe)
