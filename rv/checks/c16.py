"""C16: reasoning patterns follow their graphical criteria, evaluated by exhaustive path enumeration."""
from __future__ import annotations

from typing import Any, Dict, List, Sequence, Set

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.ref import Diagram

RULE = (
    "random structures of 4 to 9 nodes with one to three agents and two to five decisions, utilities that influence other nodes, "
    "dense and sparse, decisions that observe several things; each of the four patterns for every decision under the full, "
    "random partial and empty effective sets, and the patterns reported for the whole diagram, against the documented "
    "criteria over every choice of other decision, utilities and paths. Distinct by structure."
)
ASSUMPTIONS = [
    "blocking is judged at the inner nodes of a path", "the key node of a path is its first fork, and a path without one is no signaling path",
    "up to 9 nodes and 14 edges",
]
MIN_EVENTS = {
    "direct_compared": 700, "direct_true": 400, "manipulation_compared": 1500, "manipulation_true": 80, "signaling_compared": 1500, "signaling_true": 80,
    "revealing_compared": 1500, "revealing_true": 25, "whole_compared": 300, "decision_removed": 60, "several_rounds": 4, "motivated_not_directly": 25,
    "unknown_refused": 300,
}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, two=500 * k, many=350 * k, chain=300 * k, example=20)


class Ref:
    def __init__(self, g: Diagram):
        self.g = g
        self.ds = set(g.decisions)
        self.dir_: Dict[Any, Any] = {}
        self.und: Dict[Any, Any] = {}

    def dirs(self, a: str, b: str) -> Sequence[Any]:
        if (a, b) not in self.dir_:
            self.dir_[a, b] = self.g.dir_paths(a, b) if a != b else [(a,)]
        return self.dir_[a, b]

    def undirs(self, a: str, b: str) -> Sequence[Any]:
        if (a, b) not in self.und:
            self.und[a, b] = self.g.undir_paths(a, b)
        return self.und[a, b]

    def inner(self, p: Sequence[str]) -> List[Any]:
        return [(p[i], self.g.motif(*p[i - 1 : i + 2])) for i in range(1, len(p) - 1)]

    def effective(self, p: Sequence[str], eff: Set[str]) -> bool:
        need = {v for v, mo in self.inner(p) if mo != "fork"} | ({p[-1]} if len(p) > 1 else set())
        return not ((need & self.ds) - eff)

    def w(self, a: str, b: str) -> Set[str]:
        """What b observes that a does not influence, and b itself."""
        return {b} | {x for x in self.g.pa[b] if x not in self.g.desc(a)}

    def direct(self, d: str) -> bool:
        us = self.g.agents[self.g.agent_of[d]]["U"]
        return any(not set(p[1:-1]) & self.ds for u in us for p in self.dirs(d, u))

    def partners(self, d: str, eff: Set[str]) -> List[str]:
        """Effective decisions reached free of decisions that have an effective directed path to a utility of d's agent."""
        us = self.g.agents[self.g.agent_of[d]]["U"]
        return [
            b for b in self.ds
            if b != d and b in eff and any(not set(p[1:-1]) & self.ds for p in self.dirs(d, b))
            and any(self.effective(p, eff) for u in us for p in self.dirs(b, u))
        ]

    def utils_b(self, b: str) -> List[str]:
        return self.g.agents[self.g.agent_of[b]]["U"]

    def manipulation(self, d: str, eff: Set[str]) -> bool:
        return any(b not in p and self.effective(p, eff) for b in self.partners(d, eff) for u in self.utils_b(b) for p in self.dirs(d, u))

    def signaling(self, d: str, eff: Set[str]) -> bool:
        g = self.g
        us = g.agents[g.agent_of[d]]["U"]
        for b in self.partners(d, eff):
            # the utility of d's agent reached from b and the one the key node leads to must be the same
            reach = [u for u in us if any(self.effective(p, eff) for p in self.dirs(b, u))]
            w = self.w(d, b)
            for ub in self.utils_b(b):
                for p in self.undirs(d, ub):
                    if len(p) < 2 or p[1] not in g.pa[d] or not g.path_active(p, w) or not self.effective(p, eff):
                        continue
                    forks = [v for v, mo in self.inner(p) if mo == "fork"]
                    if not forks:
                        continue
                    w2 = self.w(forks[0], d)
                    if any(g.path_active(q, w2) and self.effective(q, eff) for u in reach for q in self.undirs(forks[0], u)):
                        return True
        return False

    def revealing(self, d: str, eff: Set[str]) -> bool:
        g = self.g
        for b in self.partners(d, eff):
            w = self.w(d, b)
            for ub in self.utils_b(b):
                for p in self.undirs(d, ub):
                    if len(p) > 2 and p[1] in g.ch[d] and any(mo == "collider" for _, mo in self.inner(p)) and g.path_active(p, w) and self.effective(p, eff):
                        return True
        return False

    def any_(self, d: str, eff: Set[str]) -> bool:
        return self.direct(d) or self.manipulation(d, eff) or self.signaling(d, eff) or self.revealing(d, eff)


def run_case(case: Dict[str, Any], m: Any) -> None:
    import importlib

    rp = importlib.import_module("pycid.analyze.reasoning_patterns")
    rng = rng_of("C16", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = [n for n in example_builders() if "macids." in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        if len(model.edges) > 16:
            m.event("example_too_large")
            return
        g = Diagram(list(model.nodes), list(model.edges), {a: {"D": model.agent_decisions.get(a, []), "U": model.agent_utilities[a]} for a in model.agents})
    else:
        for _ in range(200):
            s = gen.retry(
                rng, gen.rand_diagram, longer=0.15, cap=1e99, kind=rng.choice(["macid", "macidbase"]), n=(4, 9), agents={"two": 2, "many": 3, "chain": rng.choice([1, 2])}[kind],
                decs=(2, 4) if kind == "chain" else (1, 2), utils=rng.choice([(1, 1), (1, 2)]), max_in=rng.choice([2, 3, 4]), max_rules=10**30,
                connected=rng.random() < 0.9, util_leaf=rng.random() < 0.8, density=rng.choice([0.3, 0.4, 0.5, 0.7]), tries=3000,
            )
            if len(s.edges) <= 14:
                break
        else:
            return
        model, g = gen.make_structure(gen.add_latents(rng, s, 0.08)), s.diagram()
    ref = Ref(g)
    wit = lambda: {"edges": g.edges(), "agents": {str(a): x for a, x in g.agents.items()}}  # noqa: E731
    m.evaluated([kind, wit()])
    ds = g.decisions
    full = set(ds)
    effs = [full, set(), set(rng.sample(ds, rng.randint(1, len(ds)))), set(rng.sample(ds, rng.randint(1, len(ds))))]
    for d in ds:
        want = ref.direct(d)
        m.event("direct_compared")
        m.event("direct_true", int(want))
        m.require(bool(rp.direct_effect(model, d)) == want, "direct-effect-wrong", f"direct_effect({d}) is not {want}", wit)
        for eff in effs:
            for name, f, r in (("manipulation", rp.manipulation, ref.manipulation), ("signaling", rp.signaling, ref.signaling), ("revealing", rp.revealing_or_denying, ref.revealing)):
                want = r(d, eff)
                m.event(name + "_compared")
                m.event(name + "_true", int(want))
                arg = set(eff)
                m.require(bool(f(model, d, arg)) == want, f"{name}-wrong", f"{f.__name__}({d}, effective={sorted(eff)}) is not {want}", wit)
                m.require(arg == eff, f"{name}-changes-argument", f"{f.__name__} changed the effective set it was given", wit)
    eff, rounds = set(full), 0
    while True:
        new = {d for d in eff if ref.any_(d, eff)}
        if new == eff:
            break
        eff, rounds = new, rounds + 1
    m.event("whole_compared")
    m.event("decision_removed", int(rounds > 0))
    m.event("several_rounds", int(rounds > 1))
    got = rp.get_reasoning_patterns(model)
    listed = [d for ds_ in got.values() for d in ds_]
    m.require(sorted(listed) == sorted(eff), "patterns-decisions", f"the patterns cover {sorted(listed)}, the motivated decisions are {sorted(eff)}", wit)
    tests = {"dir_effect": lambda d: ref.direct(d), "manip": lambda d: ref.manipulation(d, eff), "sig": lambda d: ref.signaling(d, eff), "rev_den": lambda d: ref.revealing(d, eff)}
    for name, ds_ in got.items():
        for d in ds_:
            if name != "dir_effect":
                m.event("motivated_not_directly")
            m.require(name in tests and tests[name](d), "pattern-not-satisfied", f"{d} is reported under {name}, which it does not satisfy", wit)
            first = next(x for x in ("dir_effect", "sig", "manip", "rev_den") if tests[x](d))
            m.require(name == first, "pattern-not-first", f"{d} is reported under {name}, {first} comes first", wit)
    for f in (rp.manipulation, rp.signaling, rp.revealing_or_denying):
        for args in ((ds[0], {"no_such"}), ("no_such", set(full)), (ds[0], full | {"no_such"})):
            try:
                f(model, *args)
            except KeyError:
                m.event("unknown_refused")
            else:
                m.violation("unknown-accepted", f"{f.__name__}{args} with an unknown node was answered", wit())
