"""C07: a query is refused exactly when its answer can depend on a policy that is not there."""
from __future__ import annotations

import random
from typing import Any, Dict, List, Sequence

from rv import gen
from rv.common import example_builders, install_policies, make_cases, random_policies, rand_context, rng_of, seed_globals
from rv.monitor import say
from rv.ref import Diagram, Graph

RULE = (
    "random single- and multi-agent diagrams with every subset of decisions lacking a policy (some lacking even a domain), "
    "random queries, contexts and interventions; the accept/refuse verdict is compared with d-separation of the missing "
    "rules computed by moralisation on the mutilated graph, and each answer with brute force under several random, fully "
    "mixed and deterministic policies of the missing decisions. Distinct by diagram, missing set and question."
)
ASSUMPTIONS = ["contexts of probability below 1e-12 are not judged", "queried variables lie in one component of the mutilated graph"]
MIN_EVENTS = {"refused_as_required": 600, "answered_as_required": 600, "answers_compared": 600, "domainless_refused": 30, "invariant_under_policy": 800}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, cid=130 * k, macid=130 * k, domainless=60 * k)


def depends(g: Diagram, missing: Sequence[str], q: Sequence[str], ctx: Sequence[str], iv: Sequence[str]) -> List[str]:
    cut = g.alter(remove=[(p, v) for v in iv for p in g.pa[v]])
    out = []
    for d in missing:
        if not Graph(cut.nodes + [("rule", d)], cut.edges() + [(("rule", d), d)]).dsep([("rule", d)], q, list(ctx) + list(iv)):  # type: ignore
            out.append(d)
    return out


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C07", case)
    seed_globals(rng)
    kind = case["kind"]
    two = kind == "macid" or (kind == "domainless" and rng.random() < 0.5)
    s = gen.retry(
        rng, gen.rand_diagram, longer=0.2, kind=rng.choice(["macid", "macidbase"]) if two else "cid", n=(3, 7), agents=2 if two else 1,
        decs=(1, 2) if two else (1, 3), utils=(1, 2), maxdom=3, max_rules=10**9, policies=0.35, connected=rng.random() < 0.7,
        util_leaf=rng.random() < 0.6,
    )
    if not s.nopolicy and rng.random() < 0.7:
        d = rng.choice(s.decisions)
        s.nopolicy.add(d)
        s.style[d] = rng.choice(["list", "domobj"])
    bare: List[str] = []
    if kind == "domainless":
        bare = [d for d in s.nopolicy if rng.random() < 0.7] or list(s.nopolicy)[:1]
    if bare:
        for v in s.nodes:  # a mechanism that needs its parents' domains at construction time cannot be stated
            if s.style[v] in ("sfcpd", "const", "domobj"):
                s.style[v] = {"sfcpd": "tab", "const": "tab", "domobj": "list"}[s.style[v]]
        model = gen.make_structure(gen.add_latents(rng, s, 0.08))
        for v in rng.sample(s.nodes, len(s.nodes)):
            if v not in bare:
                model.add_cpds(**{v: gen.make_relationship(rng, s, v, model)})
    else:
        model = gen.build(rng, gen.add_latents(rng, s, 0.08))
    g = s.diagram()
    missing = sorted(s.nopolicy)
    pols = [random_policies(rng, s, missing, mode) for mode in ("free", "det", "sparse")]
    nets = [s.net(p) for p in pols]
    known = [v for v in s.nodes if v in model.model.domain]
    live = None
    for _ in range(8):
        q = rng.sample(s.nodes, rng.choice([1, 1, 1, 2]))
        ivs = rng.sample(known, min(len(known), rng.choice([0, 0, 0, 1, 1, 2])))
        iv = {v: rng.choice(s.dom[v]) for v in ivs}
        rest = [v for v in known if v not in q]
        ctx = rand_context(rng, s.net().do(iv), rest, rng.choice([0, 1, 1, 2, 3]))
        cut = g.alter(remove=[(p, v) for v in iv for p in g.pa[v]])
        if not all(cut.connected(q[0], x) for x in q[1:]):
            continue
        dep = depends(g, missing, q, list(ctx), list(iv))
        what = {"query": q, "context": ctx, "do": iv, "missing": missing, "no_domain": bare, "edges": s.edges, "agents": {str(k): v for k, v in s.agents.items()}}
        refused = None
        try:
            f = model.query(list(q), dict(ctx), dict(iv)) if iv or rng.random() < 0.5 else model.query(list(q), dict(ctx))
        except ValueError as e:
            refused = say(e)
        m.evaluated([s.describe(), q, ctx, iv])
        if dep:
            m.require(refused is not None, "answered-despite-dependence", f"P({q}|{ctx}, do({iv})) depends on the missing policy of {dep} but was answered", what)
            m.event("refused_as_required")
            if set(dep) & set(bare):
                m.event("domainless_refused")
            continue
        if bare:
            # what lies below a decision without a domain cannot be compiled: refusing is legitimate
            if refused is not None:
                m.event("incomplete_model_refused")
                continue
        m.require(refused is None, "refused-without-dependence", f"P({q}|{ctx}, do({iv})) does not depend on a missing policy but was refused: {refused}", what)
        m.event("answered_as_required")
        got = gen.factor_dict(f)
        for net in nets + [s.net()]:
            p = net.do(iv).prob(q, ctx)
            if p is None:
                m.event("context_impossible_under_policy")
                continue
            m.event("invariant_under_policy")
            m.require(
                gen.same_dist(got, gen.ref_dict(net, q, p), 1e-7), "answer-depends-on-policy",
                f"P({q}|{ctx}, do({iv})) was answered but differs from the value under some policy of the missing decisions",
                lambda: {**what, "got": {str(k): v for k, v in got.items()}, "want": {str(k): v for k, v in gen.ref_dict(net, q, p).items()}},
            )
        m.event("answers_compared")
        if not bare and rng.random() < 0.25:
            if live is None:
                live = model.copy()
                install_policies(rng, s, live, pols[0])
            p = nets[0].do(iv).prob(q, ctx)
            if p is not None:
                f2 = live.query(list(q), dict(ctx), dict(iv))
                m.event("live_policy_compared")
                m.require(gen.same_dist(gen.factor_dict(f2), got, 1e-7), "live-answer-depends-on-policy", f"P({q}|{ctx}, do({iv})) changes when a policy is installed", what)
