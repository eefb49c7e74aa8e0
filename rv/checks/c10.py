"""C10: pure decision rules and policies are enumerated exactly once each."""
from __future__ import annotations

import itertools
import random
from typing import Any, Dict, List

import numpy as np

from rv import gen
from rv.common import make_cases, rng_of, seed_globals
from rv.ref import Game

RULE = (
    "random diagrams whose decisions have zero to three parents of two to four outcomes each (strings, negative, unsorted, "
    "boolean) and domains of one to four outcomes, with or without a policy in place; the tables of all enumerated rules "
    "and policies against the full function space. Distinct by diagram and request."
)
ASSUMPTIONS = ["at most 1100 rules per decision and 1100 policies per request"]
MIN_EVENTS = {"rules_enumerated": 2500, "spaces_compared": 180, "policies_enumerated": 1500, "rule_installed": 100, "many_parents": 20}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, rules=260 * k, policies=80 * k, joint=80 * k)


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C10", case)
    seed_globals(rng)
    kind = case["kind"]
    two = kind == "joint"
    limit = rng.choice([16, 64, 256, 1100])
    s = gen.retry(
        rng, gen.rand_diagram, longer=0.1, kind="macid" if two else rng.choice(["cid", "macid", "macidbase"]), n=(3, 6), agents=2 if two else 1,
        decs=(1, 2), utils=(1, 1), maxdom=rng.choice([2, 3, 4]), max_rules=limit, connected=rng.random() < 0.8, policies=0.3, util_leaf=rng.random() < 0.5,
        density=rng.choice([None, 0.7, 0.9]),
        dec_domains=rng.choice([None, lambda r: r.choice([[1], ["only"], [3, 1, 2], ["b", "a"], [-1, 5, 0], [True, False], [2, 0, 1, 3], [0.5, -0.5]])]),
        tries=2000,
    )
    model = gen.build(rng, s)
    net = s.net()
    game = Game(net, s.decisions, {a: [] for a in s.agents})

    def check_rules(got: List[Any], d: str) -> None:
        for f in got:
            m.require(f.variable == d, "rule-of-other-decision", f"a rule of {d} is for {f.variable}")
            m.require(list(f.state_names[d]) == list(s.dom[d]), "rule-domain", f"a rule of {d} is over {f.state_names[d]} instead of {s.dom[d]}")
        tabs = [gen.factor_table(f, d, s.parents(d), s.dom) for f in got]
        for t in tabs:
            m.require(bool(np.all((t == 0) | (t == 1)) and np.all(t.sum(-1) == 1)), "rule-not-pure", f"a rule of {d} is not deterministic: {t.tolist()}")
        keys = [t.tobytes() for t in tabs]
        want = {t.tobytes() for t in game.pure_rules(d)}
        m.event("rules_enumerated", len(keys))
        m.event("spaces_compared")
        m.require(len(set(keys)) == len(keys), "rules-duplicated", f"{len(keys)} rules of {d}, {len(set(keys))} distinct", s.describe)
        m.require(set(keys) == want, "rules-wrong-set", f"{len(keys)} rules of {d}, {len(want)} functions exist", s.describe)

    if kind == "rules":
        for d in s.decisions:
            if len(s.parents(d)) > 1:
                m.event("many_parents")
            got = list(model.pure_decision_rules(d))
            check_rules(got, d)
            m.evaluated([s.describe(), d])
            # a rule is a valid mechanism and stays what it is, also when installed after the others were drawn
            for f in rng.sample(got, min(2, len(got))):
                t = gen.factor_table(f, d, s.parents(d), s.dom)
                live = model.copy()
                if rng.random() < 0.5:
                    live.add_cpds(f)
                else:
                    live.add_cpds(**{d: f})
                m.event("rule_installed")
                m.require(np.array_equal(gen.cpd_to_table(live, d, s.parents(d), s.dom), t), "rule-changes-when-installed", f"a rule of {d} is another one once installed", s.describe)
                m.require(np.array_equal(gen.cpd_to_table(live.copy(), d, s.parents(d), s.dom), t), "rule-changes-when-copied", f"a rule of {d} is another one in a copy", s.describe)
        return
    ds = rng.sample(s.decisions, rng.randint(1, len(s.decisions)))
    total = int(np.prod([game.n_rules(d) for d in ds], dtype=float))
    if total > 1100:
        ds = ds[:1]
        total = game.n_rules(ds[0])
    if kind == "joint" and rng.random() < 0.7:
        got = list(model.joint_pure_policies(rng.choice([list, tuple])(ds)))
    else:
        got = list(model.pure_policies(rng.choice([list, tuple])(ds)))
    m.evaluated([s.describe(), ds, kind])
    m.event("policies_enumerated", len(got))
    keys = []
    for pol in got:
        m.require([f.variable for f in pol] == ds, "policy-decisions", f"a pure policy covers {[f.variable for f in pol]} instead of {ds}, as asked for")
        by = {f.variable: gen.factor_table(f, f.variable, s.parents(f.variable), s.dom) for f in pol}
        keys.append(tuple(by[d].tobytes() for d in sorted(ds)))
    want = set(itertools.product(*[[t.tobytes() for t in game.pure_rules(d)] for d in sorted(ds)]))
    m.require(len(set(keys)) == len(keys), "policies-duplicated", f"{len(keys)} policies of {ds}, {len(set(keys))} distinct", s.describe)
    m.require(set(keys) == want, "policies-wrong-set", f"{len(keys)} policies of {ds}, {len(want)} combinations exist", s.describe)
    m.event("spaces_compared")
    if kind == "joint" and got:
        pol = rng.choice(got)
        asg = model.policy_profile_assignment(pol)
        m.event("profiles_assigned")
        m.require(set(asg) == set(s.decisions), "assignment-decisions", f"policy_profile_assignment covers {sorted(asg)} instead of {sorted(s.decisions)}")
        for d in s.decisions:
            f = [x for x in pol if x.variable == d]
            m.require(asg[d] is None if not f else np.array_equal(gen.factor_table(asg[d], d, s.parents(d), s.dom), gen.factor_table(f[0], d, s.parents(d), s.dom)), "assignment-wrong", f"policy_profile_assignment gives {asg[d]} for {d}")
