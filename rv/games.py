"""Helpers for the game-theoretic checks: profiles, best-response gaps, reduced strategies (no pycid imports)."""
from __future__ import annotations

import itertools
from typing import Any, Dict, Iterable, List, Mapping, Optional, Sequence, Tuple

import numpy as np

from rv import gen
from rv.ref import Game, Net, uniform

Policy = Dict[str, np.ndarray]


def game_of(s: gen.Spec, net: Optional[Net] = None) -> Game:
    return Game(net or s.net(), s.decisions, {a: x["U"] for a, x in s.agents.items()})


def profile_tables(m: Any, cpds: Iterable[Any], s: gen.Spec, decisions: Sequence[str], what: str) -> Optional[Policy]:
    """The rules of a reported profile; violations when it does not assign one valid rule to each decision."""
    cpds = list(cpds)
    names = [c.variable for c in cpds]
    if not m.expect(sorted(names) == sorted(decisions), f"{what}-decisions", f"{what}: a profile assigns rules to {sorted(names)}, the decisions are {sorted(decisions)}", s.describe):
        return None
    out: Policy = {}
    for c in cpds:
        t = gen.factor_table(c, c.variable, s.parents(c.variable), s.dom)
        ok = bool(np.all(t >= -1e-9) and np.allclose(t.sum(axis=-1), 1, atol=1e-6))
        if not m.expect(ok, f"{what}-invalid-rule", f"{what}: the rule of {c.variable} is no distribution: {t.tolist()}", s.describe):
            return None
        out[c.variable] = t
    return out


def scale(s: gen.Spec) -> float:
    return max([1.0] + [sum(max(abs(float(o)) for o in s.dom[u]) for u in x["U"]) for x in s.agents.values() if x["U"]])


def gain(game: Game, agent: Any, own: Sequence[str], pol: Policy) -> float:
    """How much `agent` could gain by changing the rules of `own`."""
    if not own:
        return 0.0
    return game.best(agent, own, pol) - game.eu(agent, pol)


def reduced(net: Net, own: Sequence[str], pol: Mapping[str, np.ndarray], others: Sequence[str], show: Optional[Sequence[str]] = None) -> Tuple[Any, ...]:
    """The rules (of `show`) at the contexts the rules of `own` leave open (others and nature do anything possible)."""
    n2 = net.with_policy({**{d: uniform(net, d) for d in others}, **{d: pol[d] for d in own}})
    out: List[Any] = []
    for d in own if show is None else show:
        pa = n2.parents[d]
        w = n2.weight(pa, {}) if pa else np.array(1.0)
        for idx in np.ndindex(*[len(n2.dom[p]) for p in pa]):
            out.append(tuple(np.round(pol[d][idx], 6)) if w[idx] > 1e-12 else None)
    return tuple(out)


def pure_equilibria(game: Game, agents: Mapping[Any, Sequence[str]], base: Policy, eps: float) -> Tuple[List[Policy], List[Policy]]:
    """All pure profiles of the agents' decisions; (surely equilibria, equilibria up to eps)."""
    names = list(agents)
    strategies = {a: [dict(zip(agents[a], c)) for c in itertools.product(*[list(game.pure_rules(d)) for d in agents[a]])] for a in names}
    shape = [len(strategies[a]) for a in names]
    pay = {a: np.zeros(shape) for a in names}
    for idx in np.ndindex(*shape):
        pol = dict(base)
        for a, i in zip(names, idx):
            pol.update(strategies[a][i])
        for a in names:
            pay[a][idx] = game.eu(a, pol)
    loss = np.zeros(shape)
    for k, a in enumerate(names):
        loss = np.maximum(loss, pay[a].max(axis=k, keepdims=True) - pay[a])
    sure, near = [], []
    for idx in np.ndindex(*shape):
        if loss[idx] <= eps:
            pol = dict(base)
            for a, i in zip(names, idx):
                pol.update(strategies[a][i])
            (sure if loss[idx] <= 1e-12 else near).append(pol)
    return sure, near


def strict(game: Game, agents: Mapping[Any, Sequence[str]], pol: Policy, net: Net, others_of: Mapping[Any, Sequence[str]], margin: float) -> bool:
    """Every deviation of an agent to a really different strategy loses at least `margin`."""
    for a, own in agents.items():
        here = reduced(net, own, pol, others_of[a])
        v = game.eu(a, pol)
        for c in itertools.product(*[list(game.pure_rules(d)) for d in own]):
            dev = {**pol, **dict(zip(own, c))}
            if game.eu(a, dev) > v - margin and reduced(net, own, dev, others_of[a]) != here:
                return False
    return True


def dyadic(game: Any, players: int) -> bool:
    """All payoffs and chance probabilities of an exported game are exact binary fractions."""

    def ok(x: Any) -> bool:
        return float(x) * 64 == int(float(x) * 64)

    todo = [game.root]
    while todo:
        n = todo.pop()
        if n.outcome is not None and n.is_terminal and not all(ok(n.outcome[i]) for i in range(players)):
            return False
        if not n.is_terminal:
            if n.infoset.is_chance and not all(ok(a.prob) for a in n.infoset.actions):
                return False
            todo += list(n.children)
    return True
