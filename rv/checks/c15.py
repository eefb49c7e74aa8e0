"""C15: path enumeration, path activity, active-path search, trails and motifs are exact."""
from __future__ import annotations

import random
from typing import Any, Callable, Dict, List

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.monitor import say
from rv.ref import Graph

RULE = (
    "random acyclic structures of 2 to 8 nodes (CBNs, CIDs, MACIDs; sparse, dense, disconnected, with long colliders' "
    "descendants) and bundled examples; every node pair through the path enumerators, random observed sets through activity, "
    "active-path search and trails, every path's motifs, topological orders and unknown nodes, against exhaustive path "
    "enumeration and moralisation. Distinct by structure and question."
)
ASSUMPTIONS = ["up to 8 nodes", "the start node of an active-path search is not observed"]
MIN_EVENTS = {
    "dir_pairs": 3000, "undir_pairs": 3000, "paths_judged": 8000, "active_searches": 2500, "active_found": 800, "collider_opened": 300, "opened_from_afar": 15, "trails": 2500, "frontdoor_true": 80, "backdoor_true": 300, "decision_free": 1500, "motifs": 4000, "unknown_refused": 2000, "orders": 300,
}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 25
    return make_cases(seed, cbn=120 * k, diagram=160 * k, dense=60 * k, tailed=60 * k, example=20)


def refuses(m: Any, what: str, f: Callable[[], Any], wit: Any) -> None:
    try:
        r = f()
        if hasattr(r, "__next__"):
            r = list(r)
    except KeyError:
        m.event("unknown_refused")
    except Exception as e:  # noqa: BLE001
        m.violation("unknown-wrong-error", f"{what} with an unknown node raises {type(e).__name__}, not KeyError: {say(e)}", wit())
    else:
        m.violation("unknown-accepted", f"{what} with an unknown node returned {r!r}", wit())


def run_case(case: Dict[str, Any], m: Any) -> None:
    from pycid.core import get_paths as gp

    rng = rng_of("C15", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind == "example":
        names = list(example_builders())
        model = example_builders()[names[case["i"] % len(names)]]()
        if len(model.nodes) > 8 and len(model.edges) > 12:
            m.event("example_too_large")
            return
        g = Graph(list(model.nodes), list(model.edges))
        decs = list(getattr(model, "decisions", []))
    elif kind == "tailed":
        s = gen.tailed(rng)
        model, g, decs = gen.make_structure(s), Graph(s.nodes, s.edges), []
    elif kind == "cbn" or (kind == "dense" and rng.random() < 0.5):
        s = gen.rand_spec(rng, n=(2, 6 if kind == "dense" else 8), max_in=5, density=rng.choice([0.7, 1.0]) if kind == "dense" else rng.choice([0.2, 0.35, 0.5]))
        model, g, decs = gen.make_structure(s), Graph(s.nodes, s.edges), []
    else:
        s = gen.retry(rng, gen.rand_diagram, kind=rng.choice(["cid", "macid", "macidbase"]), n=(3, 6 if kind == "dense" else 8), agents=1, decs=(1, 3), utils=(1, 2), max_in=5,
                      max_rules=10**30, connected=rng.random() < 0.7, util_leaf=rng.random() < 0.6, density=rng.choice([0.7, 1.0]) if kind == "dense" else rng.choice([0.2, 0.35, 0.5]), tries=2000)
        model, g, decs = gen.make_structure(s), s.diagram(), s.decisions
    wit = lambda: {"edges": g.edges(), "decisions": decs}  # noqa: E731
    m.evaluated([g.nodes, sorted(g.edges()), decs])
    pairs = [(a, b) for a in g.nodes for b in g.nodes]
    if len(pairs) > 24:
        pairs = rng.sample(pairs, 24)
    for a, b in pairs:
        want = g.dir_paths(a, b) if a != b else [(a,)]
        got = [tuple(p) for p in gp.find_all_dir_paths(model, a, b)]
        m.event("dir_pairs")
        m.require(sorted(got) == sorted(want), "dir-paths-wrong", f"find_all_dir_paths({a}, {b}) gives {sorted(got)}, expected {sorted(want)}", wit)
        want = g.undir_paths(a, b)
        got = [tuple(p) for p in gp.find_all_undir_paths(model, a, b)]
        m.event("undir_pairs")
        m.require(sorted(got) == sorted(want), "undir-paths-wrong", f"find_all_undir_paths({a}, {b}) gives {sorted(got)}, expected {sorted(want)}", wit)
        if hasattr(model, "decisions"):
            free = any(not set(p[1:-1]) & set(decs) for p in (g.dir_paths(a, b) if a != b else [(a,)]))
            m.event("decision_free")
            m.require(bool(gp.directed_decision_free_path(model, a, b)) == free, "decision-free-wrong", f"directed_decision_free_path({a}, {b}) is not {free}", wit)
        paths = want
        for p in rng.sample(paths, min(6, len(paths))):
            if len(p) > 1:
                motifs = ["forward" if p[1] in g.ch[p[0]] else "backward"] + [g.motif(*p[i - 1 : i + 2]) for i in range(1, len(p) - 1)] + ["endpoint"]
                m.event("motifs", len(p))
                form = rng.choice([list, tuple])(p)
                m.require(list(gp.get_motifs(model, form)) == motifs, "motifs-wrong", f"get_motifs({p}) is {gp.get_motifs(model, form)}, expected {motifs}", wit)
                for i in range(1, len(p)):
                    m.require(gp.get_motif(model, form, i) == motifs[i], "motif-wrong", f"get_motif({p}, {i}) is {gp.get_motif(model, form, i)}, expected {motifs[i]}", wit)
            for _ in range(3):
                obs = set(rng.sample(g.nodes, rng.randint(0, min(4, len(g.nodes)))))
                act = g.path_active(p, obs)
                m.event("paths_judged")
                if act and len(p) > 2 and any(g.motif(*p[i - 1 : i + 2]) == "collider" for i in range(1, len(p) - 1)):
                    m.event("collider_opened")
                m.require(bool(gp.is_active_path(model, rng.choice([list, tuple])(p), set(obs))) == act, "activity-wrong", f"is_active_path({p}, {sorted(obs)}) is not {act}", wit)
            act = g.path_active(p, set())
            m.require(bool(gp.is_active_path(model, list(p))) == act, "activity-wrong", f"is_active_path({p}) is not {act}", wit)
        for _ in range(3):
            obs = set(rng.sample(g.nodes, rng.randint(0, min(4, len(g.nodes)))))
            if kind == "tailed" and rng.random() < 0.7:
                ends = [v for v in g.nodes if not g.ch[v]]
                obs = set(rng.sample(ends, rng.randint(1, min(2, len(ends)))))
            back = any(len(p) > 1 and p[1] in g.pa[a] and g.path_active(p, obs) for p in paths)
            front = any(
                len(p) > 2 and p[1] in g.ch[a] and g.path_active(p, obs) and any(g.motif(*p[i - 1 : i + 2]) == "collider" for i in range(1, len(p) - 1))
                for p in paths
            )
            m.event("trails")
            m.event("frontdoor_true", int(front))
            m.event("backdoor_true", int(back))
            m.require(bool(gp.is_active_backdoor_trail(model, a, b, set(obs))) == back, "backdoor-wrong", f"is_active_backdoor_trail({a}, {b}, {sorted(obs)}) is not {back}", wit)
            m.require(bool(gp.is_active_indirect_frontdoor_trail(model, a, b, set(obs))) == front, "frontdoor-wrong", f"is_active_indirect_frontdoor_trail({a}, {b}, {sorted(obs)}) is not {front}", wit)
            if a in obs or a == b:
                continue
            sep = b in obs or g.dsep([a], [b], obs)
            m.event("active_searches")
            if not sep and g.dsep([a], [b], obs & {c for p in paths for i in range(1, len(p) - 1) for c in [p[i], *g.ch[p[i]]]}):
                m.event("opened_from_afar")  # only by an observation two or more edges below a collider
            try:
                p = tuple(gp.find_active_path(model, a, b, set(obs)))
            except ValueError:
                m.require(sep, "active-path-missed", f"find_active_path({a}, {b}, {sorted(obs)}) finds none though they are d-connected", wit)
            else:
                m.event("active_found")
                m.require(not sep, "active-path-spurious", f"find_active_path({a}, {b}, {sorted(obs)}) returns {p} though they are d-separated", wit)
                m.require(p in set(paths) and g.path_active(p, obs), "active-path-invalid", f"find_active_path({a}, {b}, {sorted(obs)}) returns {p}, which is not an active path", wit)
        if a != b and not g.dsep([a], [b], []):
            m.require(bool(gp.find_active_path(model, a, b)), "active-path-missed", f"find_active_path({a}, {b}) finds none", wit)
    # orders
    if hasattr(model, "get_valid_order"):
        for sub in [None, rng.sample(g.nodes, rng.randint(1, len(g.nodes))), g.nodes]:
            got = model.get_valid_order() if sub is None else model.get_valid_order(rng.choice([list, set, tuple])(sub))
            m.event("orders")
            m.require(sorted(got) == sorted(decs if sub is None else sub), "order-nodes", f"get_valid_order({sub}) is {got}", wit)
            bad = [(x, y) for i, y in enumerate(got) for x in got[:i] if x in g.desc(y)]
            m.require(not bad, "order-not-topological", f"get_valid_order({sub}) = {got} is not topological", wit)
        refuses(m, "get_valid_order", lambda: model.get_valid_order(["no_such"]), wit)
        refuses(m, "get_valid_order", lambda: model.get_valid_order([g.nodes[0], "no_such"]), wit)
    x = rng.choice(g.nodes)
    z = "no_such"
    for f in (gp.find_all_dir_paths, gp.find_all_undir_paths, gp.find_active_path, gp.is_active_indirect_frontdoor_trail, gp.is_active_backdoor_trail):
        refuses(m, f.__name__, lambda: f(model, x, z), wit)
        refuses(m, f.__name__, lambda: f(model, z, x), wit)
        refuses(m, f.__name__, lambda: f(model, z, z), wit)
    for f in (gp.find_active_path, gp.is_active_indirect_frontdoor_trail, gp.is_active_backdoor_trail):
        refuses(m, f.__name__, lambda: f(model, x, rng.choice(g.nodes), {z}), wit)
    if hasattr(model, "decisions"):
        refuses(m, "directed_decision_free_path", lambda: gp.directed_decision_free_path(model, x, z), wit)
        refuses(m, "directed_decision_free_path", lambda: gp.directed_decision_free_path(model, z, x), wit)
    refuses(m, "is_active_path", lambda: gp.is_active_path(model, [x, z]), wit)
    refuses(m, "is_active_path", lambda: gp.is_active_path(model, [x], {z}), wit)
    refuses(m, "get_motifs", lambda: gp.get_motifs(model, [x, z]), wit)
    refuses(m, "get_motif", lambda: gp.get_motif(model, [x, z], 1), wit)
