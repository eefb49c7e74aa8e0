"""Helpers shared by the checks."""
from __future__ import annotations

import itertools
import random
from typing import Any, Dict, Iterable, List, Mapping, Optional, Sequence, Tuple

import numpy as np

from rv import gen
from rv.ref import Graph, Net


def make_cases(seed: int, **kinds: int) -> List[Dict[str, Any]]:
    """Interleaved so that every worker and any time-capped prefix sees every kind."""
    out: List[Tuple[float, Dict[str, Any]]] = []
    for kind, n in kinds.items():
        for i in range(n):
            out.append(((i + 0.5) / n, {"kind": kind, "i": i, "seed": seed}))
    out.sort(key=lambda t: t[0])
    return [c for _, c in out]


def rng_of(prop: str, case: Mapping[str, Any]) -> random.Random:
    return random.Random(f"{prop}|{case['seed']}|{case['kind']}|{case['i']}")


def seed_globals(rng: random.Random) -> None:
    random.seed(rng.randrange(2**31))
    np.random.seed(rng.randrange(2**31))


def rand_context(rng: random.Random, net: Net, nodes: Sequence[str], k: int) -> Dict[str, Any]:
    """A context of positive probability when possible (sampled from the joint), else random outcomes."""
    ctx: Dict[str, Any] = {}
    for v in rng.sample(list(nodes), min(k, len(nodes))):
        p = net.prob([v], ctx)
        if p is None:
            ctx[v] = rng.choice(net.dom[v])
        else:
            live = [i for i, x in enumerate(p) if x > 1e-9]
            ctx[v] = net.dom[v][rng.choice(live)]
    items = list(ctx.items())
    rng.shuffle(items)
    return dict(items)


def mutually_connected(net: Net, query: Sequence[str]) -> bool:
    g = Graph(list(net.dom), [(p, v) for v in net.dom for p in net.parents[v]])
    return all(g.connected(query[0], q) for q in query[1:])


def check_query(m: Any, model: Any, net: Net, q: Sequence[str], ctx: Dict[str, Any], iv: Optional[Dict[str, Any]], tag: str = "query") -> Optional[bool]:
    """Compare one live query with the reference. None: nothing decided (zero-probability context, refused)."""
    n2 = net.do(iv or {})
    p = n2.prob(list(q), ctx)
    if p is None:
        m.event(f"{tag}_zero_probability_context")
        return None
    connected = mutually_connected(n2, q)
    try:
        f = model.query(list(q), dict(ctx), dict(iv) if iv is not None else None) if iv is not None else model.query(list(q), dict(ctx))
    except ValueError:
        if not connected:
            m.event(f"{tag}_disconnected_refused")
            return None
        raise
    got = gen.factor_dict(f)
    tot = sum(got.values())
    want = gen.ref_dict(n2, list(q), p)
    m.event(f"{tag}_compared")
    return m.expect(
        gen.same_dist(got, want, 1e-7),
        f"{tag}-wrong-distribution",
        f"P({q}|{ctx}, do({iv})) differs from the product of the mechanisms (total {tot:.6g})",
        lambda: {"got": {str(k): v for k, v in got.items()}, "want": {str(k): v for k, v in want.items()}, "edges": [[a, b] for b in net.dom for a in net.parents[b]]},
    )


def example_builders() -> Dict[str, Any]:
    """The bundled example constructors by name."""
    import importlib
    import inspect

    out = {}
    for mod in ("simple_cbns", "simple_cids", "simple_macids", "story_cids", "story_macids"):
        md = importlib.import_module("pycid.examples." + mod)
        for name, f in sorted(inspect.getmembers(md, inspect.isfunction)):
            if f.__module__ == md.__name__ and not name.startswith("_"):
                try:
                    inspect.signature(f).bind()
                except TypeError:
                    continue
                out[f"{mod}.{name}"] = f
    return out


def random_policies(rng: random.Random, spec: gen.Spec, which: Iterable[str], mode: str = "free") -> Dict[str, np.ndarray]:
    return {d: gen.rand_table(rng, [len(spec.dom[p]) for p in spec.parents(d)], len(spec.dom[d]), mode) for d in which}


def install_policies(rng: random.Random, spec: gen.Spec, model: Any, pol: Mapping[str, np.ndarray], style: Optional[str] = None) -> None:
    """Put the given decision rules into the live model (domains must be known already)."""
    s = spec.copy()
    for d, t in pol.items():
        s.tables[d] = t
        s.nopolicy.discard(d)
        s.style[d] = style or rng.choice(["tab", "sfcpd"])
        model.add_cpds(gen.make_relationship(rng, s, d, model))


def shape(spec: gen.Spec) -> Dict[str, Any]:
    return spec.describe()


def subsets(xs: Sequence[Any], upto: Optional[int] = None) -> Iterable[Tuple[Any, ...]]:
    for r in range(0, (len(xs) if upto is None else min(upto, len(xs))) + 1):
        yield from itertools.combinations(xs, r)
