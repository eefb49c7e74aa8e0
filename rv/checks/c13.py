"""C13: instrumental control incentives and (direct, indirect) value of control follow their graphical definitions."""
from __future__ import annotations

import random
from typing import Any, Dict, List

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.ref import Diagram

RULE = (
    "random single-agent structures of 3 to 9 nodes with one to three decisions and sufficient recall, utilities that influence "
    "other nodes, observations that become nonrequisite, several utilities; admits_ici, admits_voc, admits_dir_voc, "
    "admits_indir_voc and their list forms for every decision and node against definitions evaluated by exhaustive path "
    "enumeration on an independently reduced graph. Distinct by structure."
)
ASSUMPTIONS = ["up to 9 nodes", "the other parents of the decision are those in the diagram asked about"]
MIN_EVENTS = {"ici_compared": 2000, "ici_admitted": 500, "voc_compared": 1500, "voc_admitted": 700, "voc_only_indirect_path": 8, "dir_admitted": 500, "indir_compared": 2000, "indir_admitted": 40, "several_decisions": 60, "reduced": 80}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, cid=400 * k, dense=250 * k, example=20)


def run_case(case: Dict[str, Any], m: Any) -> None:
    import importlib

    ici, vc = (importlib.import_module("pycid.analyze." + n) for n in ("instrumental_control_incentive", "value_of_control"))
    rng = rng_of("C13", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = [n for n in example_builders() if "cids." in n and "macid" not in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        g = Diagram(list(model.nodes), list(model.edges), {a: {"D": model.agent_decisions.get(a, []), "U": model.agent_utilities[a]} for a in model.agents})
    else:
        s = gen.retry(
            rng, gen.rand_diagram, longer=0.2, cap=1e99, kind="cid", n=(3, 9), agents=1, decs=rng.choice([(1, 1), (1, 2), (2, 3)]), utils=rng.choice([(1, 1), (1, 3)]),
            max_in=rng.choice([3, 4, 5]), max_rules=10**30, connected=rng.random() < 0.8, util_leaf=rng.random() < 0.6,
            recall=rng.random() < 0.6, density=rng.choice([0.5, 0.7]) if kind == "dense" else None, tries=2000,
        )
        model, g = gen.make_structure(gen.add_latents(rng, s, 0.08)), s.diagram()
    wit = lambda: {"edges": g.edges(), "agents": {str(a): x for a, x in g.agents.items()}}  # noqa: E731
    m.evaluated([kind, wit()])
    us, ds = g.utilities, g.decisions
    for d in ds:
        want = {x for x in g.nodes if (x == d or x in g.desc(d)) and any(u == x or u in g.desc(x) for u in us)}
        for x in g.nodes:
            m.event("ici_compared")
            m.event("ici_admitted", int(x in want))
            m.require(bool(ici.admits_ici(model, d, x)) == (x in want), "ici-wrong", f"admits_ici({d}, {x}) is not {x in want}", wit)
        got = ici.admits_ici_list(model, d)
        m.require(sorted(got) == sorted(want), "ici-list-wrong", f"admits_ici_list({d}) is {sorted(got)}, expected {sorted(want)}", wit)
    if not g.sufficient_recall():
        m.event("without_recall")
        return
    red = g.requisite_graph()
    if len(red.edges()) < len(g.edges()):
        m.event("reduced")
    if len(ds) > 1:
        m.event("several_decisions")
    paths = {(x, u): red.dir_paths(x, u) for x in g.nodes for u in us}
    voc = {x for x in g.nodes if x not in ds and any(paths[x, u] for u in us)}
    direct = {x for x in voc if any(not set(p) & set(ds) for u in us for p in paths[x, u])}
    for x in g.nodes:
        m.event("voc_compared")
        m.event("voc_admitted", int(x in voc))
        m.event("dir_admitted", int(x in direct))
        m.event("voc_only_indirect_path", int(x in voc - direct))
        m.require(bool(vc.admits_voc(model, x)) == (x in voc), "voc-wrong", f"admits_voc({x}) is not {x in voc}", wit)
        m.require(bool(vc.admits_dir_voc(model, x)) == (x in direct), "dir-voc-wrong", f"admits_dir_voc({x}) is not {x in direct}", wit)
    got = vc.admits_voc_list(model)
    m.require(sorted(got) == sorted(voc), "voc-list-wrong", f"admits_voc_list() is {sorted(got)}, expected {sorted(voc)}", wit)
    got = vc.admits_dir_voc_list(model)
    m.require(sorted(got) == sorted(direct), "dir-voc-list-wrong", f"admits_dir_voc_list() is {sorted(got)}, expected {sorted(direct)}", wit)
    for d in ds:
        want = set()
        for x in voc:
            obs = (set(g.pa[d]) | {d}) - {x}
            for u in us:
                if any(d in p for p in paths[x, u]) and any(
                    len(p) > 1 and p[1] in red.pa[x] and red.path_active(p, obs) for p in red.undir_paths(x, u)
                ):
                    want.add(x)
                    break
        for x in g.nodes:
            m.event("indir_compared")
            m.event("indir_admitted", int(x in want))
            m.require(bool(vc.admits_indir_voc(model, d, x)) == (x in want), "indir-voc-wrong", f"admits_indir_voc({d}, {x}) is not {x in want}", wit)
        got = vc.admits_indir_voc_list(model, d)
        m.require(sorted(got) == sorted(want), "indir-voc-list-wrong", f"admits_indir_voc_list({d}) is {sorted(got)}, expected {sorted(want)}", wit)
