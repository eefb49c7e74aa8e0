"""C24: structural causal models are recognised exactly."""
from __future__ import annotations

from typing import Any, Dict, List

import numpy as np

from rv import gen
from rv.common import example_builders, install_policies, make_cases, random_policies, rng_of, seed_globals

RULE = (
    "chance networks and diagrams of one to seven variables in which every variable with parents is deterministic, in which exactly one row of "
    "one table is not (by as little as 1e-6, also in contexts of probability zero and in tables whose rows are all equal), and mixed ones, every form of "
    "mechanism, any distribution of the parentless ones, before and after interventions, replaced mechanisms, added edges and copying. Distinct by model."
)
ASSUMPTIONS = ["a probability within 1e-8 of 0 or 1 counts as 0 or 1"]
MIN_EVENTS = {
    "models": 900, "positive": 300, "negative": 300, "single_row_off": 150, "off_by_little": 80, "impossible_row_off": 25, "constant_stochastic_table": 30, "random_roots": 200, "no_edges": 15,
    "changed_to_scm": 35, "changed_from_scm": 60, "intervened": 80, "policies": 60, "open_decisions": 40, "only_single_outcome_parents": 20,
}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 3 if tier == "quick" else 60
    return make_cases(seed, near=200 * k, mixed=120 * k, history=160 * k, diagram=120 * k, example=30)


def expected(s: gen.Spec) -> bool:
    return all(bool(np.all((s.tables[v] < 1e-9) | (s.tables[v] > 1 - 1e-9))) for v in s.nodes if s.parents(v))


def judge(m: Any, model: Any, want: bool, describe: Any, what: str) -> None:
    got = model.is_structural_causal_model()
    m.event("models")
    m.event("positive" if want else "negative")
    m.evaluated([what, describe()])
    m.require(got is want or (bool(got) == want and isinstance(got, (bool, np.bool_))), "wrong-verdict", f"{what}: is_structural_causal_model() is {got!r}, expected {want}", describe)


def spoil(rng: Any, s: gen.Spec, m: Any) -> bool:
    """Make one row of one table with parents random."""
    inner = [v for v in s.nodes if s.parents(v) and len(s.dom[v]) > 1]
    if not inner:
        return False
    v = rng.choice(inner)
    m.event("only_single_outcome_parents", int(all(len(s.dom[p]) == 1 for p in s.parents(v))))
    t = s.tables[v]
    rows = list(np.ndindex(*t.shape[:-1]))
    net = s.net()
    w = net.weight(s.parents(v), {})
    dead = [r for r in rows if w[r] <= 0]
    r = rng.choice(dead) if dead and rng.random() < 0.4 else rng.choice(rows)
    m.event("impossible_row_off", int(bool(dead) and r in dead))
    k = t.shape[-1]
    eps = rng.choice([1e-6, 1e-5, 1e-4, 0.01, 0.3, 0.5])
    m.event("off_by_little", int(eps <= 1e-4))
    i, j = rng.sample(range(k), 2)
    t[r] = 0
    t[r][i], t[r][j] = 1 - eps, eps
    m.event("single_row_off")
    return True


def base(rng: Any, modes: Any, n: Any = (1, 7)) -> gen.Spec:
    s = gen.rand_spec(rng, n=n, modes=("det",), density=rng.choice([None, None, 0.0 if rng.random() < 0.3 else 0.5]), single=rng.choice([0.0, 0.1, 0.3]))
    for v in s.nodes:
        if not s.parents(v):
            s.tables[v] = gen.rand_table(rng, [], len(s.dom[v]), rng.choice(list(modes)))
    gen.fix_domains(rng, s)
    for v in s.nodes:  # fixing an inferred domain may have blended a row
        if s.parents(v):
            t = s.tables[v]
            bad = ~np.all((t == 0) | (t == 1), axis=-1)
            if bad.any():
                s.style[v] = rng.choice(["tab", "sfcpd"])
                flat = t.reshape(-1, t.shape[-1])
                for x in flat:
                    x[:] = np.eye(len(x))[int(x.argmax())]
    return s


def explicit(rng: Any, s: gen.Spec) -> None:
    for v in s.nodes:
        if s.style.get(v) in ("func", "kwfunc", "pfunc") and s.parents(v) and s.tables[v].reshape(-1, len(s.dom[v])).max(axis=0).min() <= 0:
            s.style[v] = rng.choice(["tab", "sfcpd"])


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C24", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = sorted(example_builders())
        name = names[case["i"] % len(names)]
        model = example_builders()[name]()
        if any(model.get_cpds(v) is None for v in model.nodes):
            return
        want = all(bool(np.all(np.isclose(t, 0) | np.isclose(t, 1))) for v in model.nodes if model.get_parents(v) for t in [np.asarray(model.get_cpds(v).values)])
        return judge(m, model, want, lambda: name, "example")
    if kind == "near":
        s = base(rng, rng.choice([("free",), ("det", "free"), ("coarse",)]))
        m.event("random_roots", int(any(not s.parents(v) and s.tables[v].max() < 1 for v in s.nodes)))
        m.event("no_edges", int(not s.edges))
        explicit(rng, s)
        judge(m, gen.build(rng, s), True, s.describe, "deterministic")
        if spoil(rng, s, m):
            explicit(rng, s)
            judge(m, gen.build(rng, s), False, s.describe, "one row random")
        return
    if kind == "mixed":
        s = gen.rand_spec(rng, n=(1, 6), modes=rng.choice([("det", "det", "free"), ("det",), ("sparse", "det"), ("free",)]))
        inner = [v for v in s.nodes if s.parents(v)]
        if inner and rng.random() < 0.3:
            # parents without influence: all rows equal and random
            v = rng.choice(inner)
            row = gen.rand_dist(rng, len(s.dom[v]), "free")
            s.tables[v] = np.broadcast_to(np.array(row), s.tables[v].shape).copy()
            m.event("constant_stochastic_table")
        explicit(rng, s)
        judge(m, gen.build(rng, s), expected(s), s.describe, "mixed")
        return
    if kind == "diagram":
        s = gen.retry(
            rng, gen.rand_diagram, kind=rng.choice(["cid", "macid"]), n=(3, 6), agents=1, labels=(0,), decs=(1, 2), utils=(1, 2), modes=rng.choice([("det",), ("det", "det", "free")]), max_rules=10**9, maxdom=3, util_leaf=rng.random() < 0.6,
        )
        explicit(rng, s)
        model = gen.build(rng, s)
        if all(not s.parents(d) for d in s.decisions):
            # a decision without parents is exogenous, with or without a policy
            m.event("open_decisions")
            judge(m, model, expected(s), s.describe, "open decisions")
        pol = random_policies(rng, s, s.decisions, rng.choice(["det", "det", "free"]))
        install_policies(rng, s, model, pol)
        s.tables.update(pol)
        m.event("policies")
        judge(m, model, expected(s), lambda: {**s.describe(), "policy": {d: t.tolist() for d, t in pol.items()}}, "with policies")
        return
    # the verdict follows the changes made to a model
    s = base(rng, ("free", "det"), n=(2, 6))
    explicit(rng, s)
    model = gen.build(rng, s)
    judge(m, model, True, s.describe, "before")
    was = True
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["spoil", "spoil", "repair", "intervene", "copy"])
        if op == "spoil":
            before = {v: t.copy() for v, t in s.tables.items()}
            if not spoil(rng, s, m):
                break
            changed = [v for v in s.nodes if not np.array_equal(before[v], s.tables[v])]
            reinstall(rng, s, model, changed)
        elif op == "repair":
            off = [v for v in s.nodes if s.parents(v) and not np.all((s.tables[v] == 0) | (s.tables[v] == 1))]
            for v in off:
                s.tables[v] = gen.rand_table(rng, s.tables[v].shape[:-1], len(s.dom[v]), "det")
            reinstall(rng, s, model, off)
        elif op == "intervene":
            v = rng.choice(s.nodes)
            model.intervene({v: rng.choice(s.dom[v])})
            # what an intervention does to the variable's mechanism is deterministic either way
            s.tables[v] = np.broadcast_to(np.eye(len(s.dom[v]))[0], s.tables[v].shape).copy()
            m.event("intervened")
            if s.parents(v) and model.get_parents(v):
                pass
            else:
                s.edges = [e for e in s.edges if e[1] != v]
                s.tables[v] = np.eye(len(s.dom[v]))[0]
        else:
            model = model.copy()
        want = expected(s)
        m.event("changed_to_scm", int(want and not was))
        m.event("changed_from_scm", int(was and not want))
        was = want
        judge(m, model, want, s.describe, f"after {op}")


def reinstall(rng: Any, s: gen.Spec, model: Any, which: List[str]) -> None:
    for v in which:
        s.style[v] = rng.choice(["tab", "sfcpd"])
        model.add_cpds(gen.make_relationship(rng, s, v, model))
