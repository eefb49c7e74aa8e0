"""C17: the exported extensive-form game, in memory and read back from a file, is the diagram's game."""
from __future__ import annotations

import contextlib
import io
import itertools
import os
from typing import Any, Callable, Dict, Iterator, List, Optional, Sequence, Tuple

import numpy as np

from rv import gen
from rv.common import example_builders, install_policies, make_cases, random_policies, rng_of, seed_globals
from rv.ref import Game

RULE = (
    "random one- to three-agent diagrams with unobserved and observed chance nodes, impossible chance outcomes, decisions observed "
    "by others, constant and several utilities, decisions fixed by a policy and left out of the game, and bundled examples; "
    "the game is walked node by node: variables of each level, information sets, moves, players and, under random pure and "
    "fully mixed rules, every player's payoff against the brute-force utility tensor of the specification; for the returned "
    "object and for the file written and parsed again. Distinct by model."
)
ASSUMPTIONS = ["at most 48 leaves", "every level of the tree is one variable of the diagram (any order)"]
MIN_EVENTS = {"games_walked": 80, "files_walked": 25, "profiles_compared": 1000, "infosets_judged": 250, "impossible_branches": 20, "left_out_decisions": 10, "chance_levels": 30, "mapping_keys": 250}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 20
    return make_cases(seed, one=24 * k, two=60 * k, three=20 * k, fixed=24 * k, example=22)


def walk(game: Any) -> List[List[Tuple[Tuple[int, ...], Any]]]:
    """Tree nodes by level, each with its path of action numbers."""
    levels: List[List[Tuple[Tuple[int, ...], Any]]] = [[((), game.root)]]
    while not all(n.is_terminal for _, n in levels[-1]):
        nxt: List[Tuple[Tuple[int, ...], Any]] = []
        for path, n in levels[-1]:
            nxt += [(path + (i,), c) for i, c in enumerate(n.children)]
        levels.append(nxt)
    return levels


def orders(levels: Any, nodes: Sequence[str], dom: Dict[str, List[Any]], decisions: Sequence[str]) -> Iterator[List[str]]:
    """Assignments of one variable to each level that agree with the labels in the tree."""
    desc = []
    for lv in levels[:-1]:
        desc.append({(n.infoset.is_chance, None if n.infoset.is_chance else n.infoset.label, tuple(a.label for a in n.infoset.actions)) for _, n in lv if not n.is_terminal})
    if len(desc) != len(nodes) or any(n.is_terminal for lv in levels[:-1] for _, n in lv):
        return
    fits = []
    for d in desc:
        if len(d) != 1:
            return
        ((chance, label, acts),) = d
        fits.append([v for v in nodes if tuple(map(str, dom[v])) == acts and ((v not in decisions) if chance else (v in decisions and label == v))])
    for combo in itertools.product(*fits):
        if len(set(combo)) == len(nodes):
            yield list(combo)


def judge(game: Any, order: List[str], levels: Any, s: gen.Spec, decisions: Sequence[str], agents: Sequence[Any], ref: Game, profiles: Any, base: Any) -> Optional[str]:
    """None when the tree under this reading is the diagram's game, else what is wrong."""
    players = [p.label for p in game.players]
    if players != [str(a) for a in agents] and sorted(players) != sorted(str(a) for a in agents):
        return f"players are {players}, agents are {list(agents)}"
    of = {d: a for a, x in s.agents.items() for d in x["D"]}
    info: Dict[Any, Tuple[str, Tuple[Any, ...]]] = {}
    seen: Dict[Tuple[str, Tuple[Any, ...]], Any] = {}
    prob: Dict[Tuple[int, ...], float] = {(): 1.0}
    for lv, var in zip(levels[:-1], order):
        for path, n in lv:
            st = {w: s.dom[w][i] for w, i in zip(order, path)}
            if var in decisions:
                if any(p not in st for p in s.parents(var)):
                    return f"{var} comes before something it observes"
                key = (var, tuple(st[p] for p in s.parents(var)))
                h = hash(n.infoset)
                if info.setdefault(h, key) != key:
                    return f"an information set joins {info[h]} and {key}"
                if seen.setdefault(key, h) != h:
                    return f"{key} is spread over several information sets"
                if n.infoset.player.label != str(of[var]):
                    return f"{var} belongs to player {n.infoset.player.label}, not {of[var]}"
            else:
                tot = sum(float(a.prob) for a in n.infoset.actions)
                if abs(tot - 1) > 1e-6:
                    return f"chance probabilities of {var} sum to {tot}"
    n_p = len(players)
    leaf: List[Tuple[Tuple[int, ...], float, List[float]]] = []
    for path, n in levels[-1]:
        p, cur = 1.0, game.root
        for lv_var, i in zip(order, path):
            if lv_var not in decisions:
                p *= float(cur.infoset.actions[i].prob)
            cur = cur.children[i]
        leaf.append((path, p, [float(n.outcome[k]) for k in range(n_p)] if n.outcome is not None else [0.0] * n_p))
    ix = {v: i for i, v in enumerate(order)}
    for pol in profiles:
        tot = np.zeros(n_p)
        for path, p, pay in leaf:
            w = p
            for d in decisions:
                if w == 0:
                    break
                w *= pol[d][tuple(path[ix[q]] for q in s.parents(d)) + (path[ix[d]],)]
            tot += w * np.array(pay)
        for k, a in enumerate(players):
            (agent,) = [x for x in agents if str(x) == a]
            want = ref.eu(agent, {**base, **pol})
            if abs(tot[k] - want) > 1e-6 * max(1.0, abs(want)):
                return f"player {a} gets {tot[k]} in the tree and {want} in the diagram"
    return None


def run_case(case: Dict[str, Any], m: Any) -> None:
    import pygambit
    from pycid.export import gambit as gb

    rng = rng_of("C17", case)
    seed_globals(rng)
    kind = case["kind"]
    base: Dict[str, np.ndarray] = {}
    if kind == "example":
        names = [n for n in example_builders() if "cid" in n]
        model = example_builders()[names[case["i"] % len(names)]]()
        if not all(model.get_cpds(v) is not None for v in model.nodes) or not model.utilities:
            m.event("example_without_mechanisms")
            return
        s = gen.Spec()
        s.kind, s.nodes, s.edges = "macid", list(model.nodes), list(model.edges)
        s.agents = {a: {"D": list(model.agent_decisions.get(a, [])), "U": list(model.agent_utilities[a])} for a in model.agents}
        s.dom = {v: list(model.model.domain[v]) for v in s.nodes}
        s.nopolicy = set(s.decisions)
        for v in s.nodes:
            if v not in s.nopolicy:
                s.tables[v] = gen.cpd_to_table(model, v, s.parents(v), s.dom)
    else:
        n_ag = {"one": 1, "two": 2, "three": 3, "fixed": rng.choice([1, 2])}[kind]
        for _ in range(300):
            s = gen.retry(
                rng, gen.rand_diagram, longer=0.15, cap=200, kind="cid" if kind == "one" and rng.random() < 0.6 else rng.choice(["macid", "macidbase"]), n=(3, 7), agents=n_ag, labels=(0,) if kind == "one" else rng.choice([(0, 1, 2), (1, 2, 3), ("x", "Y", "b c")]),
                decs=(1, 2) if kind != "fixed" else (2, 3), utils=(1, 2), maxdom=3, max_in=3, max_rules=4096, connected=rng.random() < 0.75, modes=rng.choice([("free", "det"), ("coarse", "det"), ("sparse", "free")]),
                util_leaf=rng.random() < 0.7,
            )
            if s.kind == "cid" and list(s.agents) != [0]:
                continue
            if kind == "fixed":
                fix = [d for d in s.decisions if rng.random() < 0.5]
                if not fix or len(fix) == len(s.decisions):
                    continue
            else:
                fix = []
            play = [d for d in s.decisions if d not in fix]
            nodes = set(play) | {p for d in play for p in s.parents(d)}
            if np.prod([len(s.dom[v]) for v in nodes], dtype=float) <= (32 if case["i"] % 4 else 48):
                break
        else:
            return
        model = gen.build(rng, gen.add_latents(rng, s, 0.08))
        if fix:
            base = random_policies(rng, s, fix, rng.choice(["free", "det", "sparse"]))
            install_policies(rng, s, model, base)
            m.event("left_out_decisions")
    play = [d for d in s.decisions if d not in base]
    nodes = list(dict.fromkeys([v for d in play for v in s.parents(d) + [d]]))
    if np.prod([len(s.dom[v]) for v in nodes], dtype=float) > 48:
        m.event("example_too_large")
        return
    net = s.net(base)
    ref = Game(net, s.decisions, {a: x["U"] for a, x in s.agents.items()})
    agents = list(s.agents)
    if base and rng.random() < 0.5:
        agents = [a for a in agents if set(s.agents[a]["D"]) & set(play)]
    if base:
        game, mapping = gb.macid_to_efg(model, rng.choice([list, set])(play), agents)
    elif rng.random() < 0.8:
        game, mapping = gb.macid_to_efg(model)
    else:
        game, mapping = gb.macid_to_efg(model, set(play), agents)
    m.evaluated([kind, s.describe(), sorted(base)])
    profiles = []
    for i in range(14):
        mode = "det" if i < 10 else "free"
        profiles.append({d: gen.rand_table(rng, [len(s.dom[p]) for p in s.parents(d)], len(s.dom[d]), mode) for d in play})
    m.event("profiles_compared", len(profiles))

    def verdict(g: Any, what: str, fits: Callable[[List[str], Any], bool] = lambda order, levels: True) -> Optional[Tuple[List[str], Any]]:
        """a reading of the tree under which it is the game, if possible one that fits, too"""
        levels = walk(g)
        why, n = "no assignment of variables to levels fits the labels in the tree", 0
        # exchangeable variables make several readings right: those that fit come first
        for order in sorted(itertools.islice(orders(levels, nodes, s.dom, play), 2000), key=lambda o: not fits(o, levels)):
            n += 1
            why = judge(g, order, levels, s, play, agents, ref, profiles, base)
            if why is None:
                return order, levels
            if n > 60:
                break
        m.violation(f"{what}-not-the-game", f"{what}: {why}", s.describe())
        return None

    live = {(k[0], frozenset(k[1])): hash(v) for k, v in mapping.items()}

    def decision_points(order: List[str], levels: Any) -> Dict[Any, Any]:
        return {
            (var, frozenset((p, s.dom[p][st[p]]) for p in s.parents(var) if p in st)): hash(n.infoset)
            for lv, var in zip(levels[:-1], order) if var in play for path, n in lv for st in [dict(zip(order, path))]
        }

    m.event("games_walked")
    got = verdict(game, "exported game", lambda order, levels: decision_points(order, levels) == live)
    if got is None:
        return
    order, levels = got
    m.event("chance_levels", sum(v not in play for v in order))
    # the mapping that comes with it
    of_tree = decision_points(order, levels)
    for lv, var in zip(levels[:-1], order):
        if var not in play:
            m.event("impossible_branches", sum(float(a.prob) < 1e-12 for _, n in lv for a in n.infoset.actions))
    m.event("infosets_judged", len(of_tree))
    m.event("mapping_keys", len(live))
    m.require(live == of_tree, "mapping-wrong", f"parents_to_infoset has {len(live)} entries; the tree has {len(of_tree)} decision points, {sum(live.get(k) == v for k, v in of_tree.items())} agree", s.describe)
    if not base and rng.random() < 0.5:
        f = f"g{case['i']}{kind}.efg"
        with contextlib.redirect_stdout(io.StringIO()):
            gb.macid_to_gambit_file(model, f)
        back = pygambit.Game.read_game(f)
        os.unlink(os.path.abspath(f))
        m.event("files_walked")
        verdict(back, "game read back from the file")
