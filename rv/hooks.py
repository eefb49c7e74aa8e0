"""Runtime monitors installed around pycid's public operations from outside (nothing in /repo is edited).

Each is a context manager that patches class attributes or module functions, records what passes, judges it
against the reference and then restores the originals. Internal calls made by solvers and analyses go through the
same attributes, so they are observed too.
"""
from __future__ import annotations

import contextlib
from typing import Any, Callable, Dict, Iterator, List, Optional

import numpy as np

from rv import gen


@contextlib.contextmanager
def query_monitor(m: Any, limit: int = 4000, tag: str = "internal_query") -> Iterator[None]:
    """Every answered query, wherever it is made, must equal the brute-force answer from the live tables."""
    import pycid

    CBN, MB = pycid.CausalBayesianNetwork, pycid.MACIDBase
    orig_cbn, orig_mb = CBN.query, MB.query
    depth = [0]
    count = [0]

    def wrap(orig: Callable[..., Any]) -> Callable[..., Any]:
        def query(self: Any, query: Any, context: Any, intervention: Any = None, *a: Any, **k: Any) -> Any:
            if depth[0]:
                return orig(self, query, context, intervention, *a, **k)
            q, ctx, iv = list(query), dict(context), dict(intervention or {})
            ok = count[0] < limit
            net = None
            if ok:
                try:
                    net = gen.net_from_model(self)
                except Exception:  # incomplete model: nothing to compare with
                    m.event(f"{tag}_model_incomplete")
            depth[0] += 1
            try:
                res = orig(self, q, context, intervention, *a, **k)
            finally:
                depth[0] -= 1
            if net is not None and all(iv[v] in net.dom[v] for v in iv):
                count[0] += 1
                n2 = net.do(iv)
                p = n2.prob(q, ctx)
                if p is None:
                    m.event(f"{tag}_zero_probability_context")
                else:
                    got, want = gen.factor_dict(res), gen.ref_dict(n2, q, p)
                    m.event(f"{tag}_compared")
                    m.expect(
                        gen.same_dist(got, want, 1e-7),
                        f"{tag}-wrong-distribution",
                        f"a query made inside an operation, P({q}|{ctx}, do({iv})), is wrong",
                        lambda: {"got": {str(k_): v for k_, v in got.items()}, "want": {str(k_): v for k_, v in want.items()}},
                    )
            return res

        return query

    CBN.query, MB.query = wrap(orig_cbn), wrap(orig_mb)
    try:
        yield
    finally:
        CBN.query, MB.query = orig_cbn, orig_mb


# -- snapshots ----------------------------------------------------------------------------------------------------
def table_snapshot(f: Any) -> Any:
    if f is None:
        return None
    return (
        type(f).__name__,
        tuple(f.variables),
        tuple((v, tuple(f.state_names.get(v, ()))) for v in f.variables),
        np.asarray(f.values).round(12).tobytes(),
    )


def snapshot(model: Any, order: bool = True) -> Dict[str, Any]:
    """Everything a user can observe of a model."""
    nodes, edges = list(model.nodes), list(model.edges)
    if not order:
        nodes, edges = sorted(nodes), sorted(edges)
    s: Dict[str, Any] = {
        "class": type(model).__name__,
        "nodes": nodes,
        "edges": edges,
        "latents": sorted(model.latents),
        "mechanisms": {v: id(r) for v, r in model.model.items()},
        "domains": {v: list(d) for v, d in model.model.domain.items()},
        "labels": {v: getattr(model.get_cpds(v), "label", None) for v in model.nodes},
        "tables": {v: table_snapshot(model.get_cpds(v)) for v in model.nodes},
    }
    if hasattr(model, "agent_decisions"):
        s["agent_decisions"] = {a: list(x) for a, x in model.agent_decisions.items()}
        s["agent_utilities"] = {a: list(x) for a, x in model.agent_utilities.items()}
        s["decision_agent"] = dict(model.decision_agent)
        s["utility_agent"] = dict(model.utility_agent)
        s["agents"] = list(model.agents)
    return s


def snapshot_diff(a: Dict[str, Any], b: Dict[str, Any]) -> List[str]:
    out = []
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], dict) and isinstance(b.get(k), dict):
                keys = [x for x in set(a[k]) | set(b[k]) if a[k].get(x, "absent") != b[k].get(x, "absent")]
                out.append(f"{k}: {sorted(map(str, keys))}")
            else:
                out.append(f"{k}: {a[k]} -> {b.get(k)}")
    return out
