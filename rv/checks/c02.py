"""C02: every accepted mechanism statement compiles to exactly the table it states; malformed ones are refused."""
from __future__ import annotations

import itertools
import random
from typing import Any, Dict, List, Tuple

import numpy as np

from rv import gen
from rv.common import make_cases, rng_of, seed_globals
from rv.monitor import say

RULE = (
    "random parents (0-3, 2-3 outcomes of any type, any declared order) and a random statement for their child in every "
    "form (dict, ConstantCPD, function of named or keyword arguments, StochasticFunctionCPD with declared domain, table "
    "with permuted evidence, decision list, DecisionDomain, helper distributions); the live table and domain are compared "
    "with the statement evaluated by the harness itself, per combination of parent outcomes; malformed variants of the "
    "same statements must be refused. Non-trivial: the statement is partial, depends on parents or is malformed; "
    "distinct by full statement."
)
ASSUMPTIONS = ["tolerance 1e-9 per entry", "outcome values of one variable are mutually comparable when the domain is inferred"]
MIN_EVENTS = {"tables_compared": 1500, "partial_rows": 1000, "malformed_refused": 250, "declared_order_kept": 300}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 3 if tier == "quick" else 60
    return make_cases(seed, statement=900 * k, malformed=500 * k, network=250 * k, helper=60 * k, tableorder=40)


def parents_of(rng: random.Random, k: int) -> Tuple[List[str], Dict[str, List[Any]]]:
    names = rng.sample(["P", "Q", "R", "a_1", "X10", "x2"], k)
    dom = {}
    for p in names:
        dom[p] = gen.rand_domain(rng, rng.randint(2, 3))
        rng.shuffle(dom[p])
    return names, dom


def make_model(rng: random.Random, pa: List[str], dom: Dict[str, List[Any]], child: str, decision: bool = False) -> Any:
    import pycid
    from pycid.core.cpd import ConstantCPD

    edges = [(p, child) for p in pa]
    if decision:
        m = pycid.CID(edges, decisions=[child], utilities=[])
    else:
        m = rng.choice([lambda e: pycid.CausalBayesianNetwork(e), lambda e: pycid.CID(e), lambda e: pycid.MACID(e)])(edges)
    m.add_nodes_from([v for v in pa + [child] if v not in m.nodes])
    for p in pa:
        m.add_cpds(ConstantCPD(p, {}, m, domain=list(dom[p])))
    return m


def rand_statement(rng: random.Random, outcomes: List[Any], form: int) -> Any:
    """One row as the user writes it: an outcome, or a mapping that may leave outcomes out or set them to None."""
    if form == 0:
        return rng.choice(outcomes)
    sub = rng.sample(outcomes, rng.randint(1, len(outcomes)))
    full = len(sub) == len(outcomes)
    w = [rng.choice([rng.random(), rng.choice([0.1, 0.2, 0.25, 0.3]), 0.0]) for _ in sub]
    tot = sum(w)
    if full or rng.random() < 0.3:
        w = [x / tot for x in w] if tot else [1.0 / len(w)] * len(w)
    else:
        scale = rng.uniform(0, 1)
        w = [x * scale / tot for x in w] if tot else w
    d: Dict[Any, Any] = dict(zip(sub, w))
    if form == 2:
        for o in outcomes:
            if o not in d and rng.random() < 0.6:
                d[o] = None
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def is_map(x: Any) -> bool:
    return isinstance(x, dict)


def expected_row(st: Any, domain: List[Any]) -> List[float]:
    if not is_map(st):
        st = {st: 1.0}
    given = {o: p for o, p in st.items() if p is not None}
    rest = [o for o in domain if o not in given]
    left = max(0.0, 1 - sum(given.values()))
    return [given[o] if o in given else left / len(rest) for o in domain]


def mentioned(rows: Dict[Tuple[Any, ...], Any]) -> List[Any]:
    out = set()
    for st in rows.values():
        out |= set(st) if is_map(st) else {st}
    return sorted(out)


def compare(m: Any, model: Any, v: str, pa: List[str], dom: Dict[str, List[Any]], domain: List[Any], rows: Dict[Tuple[Any, ...], Any], form: str) -> None:
    live = list(model.model.domain[v])
    if not m.expect(live == list(domain), f"domain-{form}", f"the domain of {v} is {live}, stated {domain} ({form})", {"rows": {str(k): st for k, st in rows.items()}}):
        return
    t = gen.cpd_to_table(model, v, pa, {**dom, v: domain})
    m.event("tables_compared")
    for key, st in rows.items():
        idx = tuple(dom[p].index(x) for p, x in zip(pa, key))
        want = expected_row(st, domain)
        got = [float(x) for x in t[idx]]
        if is_map(st) and len([1 for p in st.values() if p is not None]) < len(domain):
            m.event("partial_rows")
        if not m.expect(
            all(abs(a - b) < 1e-9 for a, b in zip(got, want)), f"table-{form}",
            f"P({v}|{dict(zip(pa, key))}) compiled to {got}, stated {st} over {domain} ({form})", {"want": want},
        ):
            return


def run_statement(rng: random.Random, m: Any, bad: bool) -> None:
    from pgmpy.factors.discrete import TabularCPD
    from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD

    k = rng.choice([0, 1, 1, 2, 3])
    pa, dom = parents_of(rng, k)
    v = "V"
    outcomes = gen.rand_domain(rng, rng.randint(2, 3)) if rng.random() < 0.8 else rng.choice([[1, 2, 3, 4], ["w", "x", "y", "z"], [7], [0.1, 0.2, 0.3]])
    outcomes = list(outcomes)
    forms = ["dict", "constobj", "constobj_nodomain", "func", "kwfunc", "sfcpd", "sfcpd_nodomain", "table"] + (["list", "domobj"] if not bad else [])
    form = rng.choice(forms)
    model = make_model(rng, pa, dom, v, decision=form in ("list", "domobj"))
    keys = list(itertools.product(*[dom[p] for p in pa]))
    constant = form in ("dict", "constobj", "constobj_nodomain")
    style = rng.choice([0, 1, 1, 2, 2, 3])
    if constant:
        st = rand_statement(rng, outcomes, rng.choice([1, 2]))
        rows = {key: st for key in keys}
    else:
        rows = {key: rand_statement(rng, outcomes, rng.randint(0, 2) if style == 3 else style) for key in keys}
    declared = form in ("constobj", "sfcpd", "table", "list", "domobj")
    domain = rng.sample(outcomes, len(outcomes)) if declared else mentioned(rows)
    if not declared and not set(mentioned(rows)):
        return
    # inferred domains: rows only mention known outcomes, but a row with nothing unspecified must already sum to one
    if not declared:
        for key, st in list(rows.items()):
            if is_map(st):
                given = {o: p for o, p in st.items() if p is not None}
                if all(o in given for o in domain) and abs(sum(given.values()) - 1) > 1e-9:
                    o = next(iter(given))
                    st2 = dict(st)
                    st2[o] = given[o] + 1 - sum(given.values())
                    rows = {kk: (st2 if (kk == key or constant) else s) for kk, s in rows.items()}
    if form in ("list", "domobj"):
        rows = {key: {} for key in keys}
    what = ""
    if bad:
        what = rng.choice(["over", "under", "negative", "above_one", "outside", "args"])
        key = rng.choice(keys)
        if what == "over":
            delta = rng.choice([0.011, 0.02, 0.2, 1.0])
            st = {o: p for o, p in zip(domain, gen.rand_dist(rng, len(domain), "free"))}
            st[domain[-1]] += delta
            if rng.random() < 0.5 and len(domain) > 2 and declared:
                st = {domain[0]: 0.6, domain[1]: 0.4 + delta}
        elif what == "under":
            st = {o: p for o, p in zip(domain, gen.rand_dist(rng, len(domain), "free"))}
            f = 1 - rng.choice([0.011, 0.05, 0.5])
            st = {o: p * f for o, p in st.items()}
        elif what == "negative":
            if len(domain) < 2:
                return
            st = {o: 0.0 for o in domain}
            e = rng.choice([0.001, 0.2, 1.0])
            st[domain[0]], st[domain[1]] = 1 + e if rng.random() < 0.5 else 1.0, -e
            if abs(sum(st.values()) - 1) > 1e-12 and rng.random() < 0.5:
                return
        elif what == "above_one":
            st = {domain[0]: 1.5, **({domain[1]: -0.5} if len(domain) > 1 else {})}
        elif what == "outside":
            if not declared or form == "table":
                return
            st = {rng.choice([99, "other"]): 1.0}
            if sorted(map(str, st)) and rng.random() < 0.5:
                st[domain[0]] = 0.0
        else:
            if form not in ("func", "sfcpd", "sfcpd_nodomain"):
                return
            st = None
        if st is not None:
            rows = {kk: (st if (kk == key or constant) else s) for kk, s in rows.items()}
        elif what != "args":
            return

    def answer(key: Tuple[Any, ...]) -> Any:
        r = rows[key]
        return dict(r) if is_map(r) else r

    args = rng.sample(pa, len(pa))
    if bad and what == "args":
        args = args[:-1] if args and rng.random() < 0.5 else args + ["stranger"]
        fn = eval(f"lambda {', '.join(args)}: {domain[0]!r}")
    elif form in ("kwfunc",) or rng.random() < 0.3:
        fn = lambda **pv: answer(tuple(pv[p] for p in pa))  # noqa: E731
    else:
        fn = eval(f"lambda {', '.join(args)}: _a(({''.join(p + ',' for p in pa)}))", {"_a": answer})

    if form in ("func", "kwfunc", "sfcpd", "sfcpd_nodomain") and rng.random() < 0.3:
        fn, dressed = gen.dress(rng, fn)
        m.event(f"callable_{dressed}")

    def state() -> None:
        if form == "dict":
            rel: Any = dict(rows[keys[0]])
        elif form == "constobj":
            rel = ConstantCPD(v, dict(rows[keys[0]]), model, domain=list(domain))
        elif form == "constobj_nodomain":
            rel = ConstantCPD(v, dict(rows[keys[0]]), model)
        elif form in ("func", "kwfunc"):
            rel = fn
        elif form == "sfcpd":
            rel = StochasticFunctionCPD(v, fn, model, domain=list(domain))
        elif form == "sfcpd_nodomain":
            rel = StochasticFunctionCPD(v, fn, model)
        elif form == "list":
            rel = list(domain)
        elif form == "domobj":
            rel = DecisionDomain(v, model, list(domain))
        else:
            ev = rng.sample(pa, len(pa))
            full = {}
            for kk, st_ in rows.items():
                full[tuple(kk[pa.index(p)] for p in ev)] = (
                    [st_.get(o, 0.0) or 0.0 for o in domain] if bad and st_ is rows[key] and is_map(st_) else expected_row(st_, domain)
                )
            vals = np.array([full[kk] for kk in itertools.product(*[dom[p] for p in ev])]).T
            rel = TabularCPD(v, len(domain), vals, evidence=ev or None, evidence_card=[len(dom[p]) for p in ev] or None,
                             state_names={v: list(domain), **{p: list(dom[p]) for p in ev}})
        if hasattr(rel, "variable") and rng.random() < 0.5:
            model.add_cpds(rel)
        elif rng.random() < 0.3:
            model.model[v] = rel
        else:
            model.add_cpds(**{v: rel})

    if not bad:
        state()
        m.evaluated([form, pa, dom, domain, {str(kk): s for kk, s in rows.items()}])
        if domain != sorted(domain, key=lambda o: (str(type(o)), o)):
            m.event("declared_order_kept")
        compare(m, model, v, pa, dom, domain, rows, form)
        return
    m.evaluated(["bad", what, form, pa, dom, domain, {str(kk): s for kk, s in rows.items()}])
    try:
        state()
        if form == "table" and what != "negative" and what != "above_one":
            if pa or True:
                model.query([v], {})  # a bare table is only checked when it is used
        elif form == "table":
            return
    except Exception as e:  # noqa: BLE001
        m.event("malformed_refused")
        m.expect(isinstance(e, (ValueError, TypeError, KeyError)), "refusal-kind", f"{what} statement ({form}) ended in {type(e).__name__}: {say(e)}")
    else:
        m.violation(f"accepted-{what}", f"a malformed {form} statement ({what}) was accepted", {"rows": {str(kk): s for kk, s in rows.items()}, "domain": domain})


def run_helper(rng: random.Random, m: Any) -> None:
    import pycid
    from pycid.core.cpd import bernoulli, discrete_uniform, noisy_copy

    p = rng.choice([0.0, 1.0, rng.random(), 0.5])
    domx = gen.rand_domain(rng, rng.randint(2, 3), numeric=True)
    model = pycid.CausalBayesianNetwork([("X", "Y"), ("X", "Z")])
    pr = rng.choice([0.9, rng.uniform(0.1, 1)])
    full = rng.random() < 0.5
    model.add_cpds(B=bernoulli(p)) if False else None
    model.add_nodes_from(["B"])
    model.add_cpds(
        X=discrete_uniform(domx), B=bernoulli(p),
        Y=(lambda X: noisy_copy(X, pr, domain=list(domx))) if full else (lambda X: noisy_copy(X, pr)),
        Z=lambda X: noisy_copy(X),
    )
    m.evaluated([p, domx, pr, full])
    one = {(): {o: 1 / len(domx) for o in domx}}
    compare(m, model, "X", [], {}, sorted(domx), one, "discrete_uniform")
    compare(m, model, "B", [], {}, [0, 1], {(): {0: 1 - p, 1: p}}, "bernoulli")
    sd = {"X": sorted(domx)}
    compare(m, model, "Y", ["X"], sd, sorted(domx), {(x,): {x: pr} for x in domx}, "noisy_copy")
    compare(m, model, "Z", ["X"], sd, sorted(domx), {(x,): {x: 0.9} for x in domx}, "noisy_copy")


def run_case(case: Dict[str, Any], m: Any) -> None:
    rng = rng_of("C02", case)
    seed_globals(rng)
    kind = case["kind"]
    if kind in ("statement", "malformed"):
        run_statement(rng, m, kind == "malformed")
    elif kind == "helper":
        run_helper(rng, m)
    elif kind == "tableorder":
        table_order(rng, m)
    else:
        s = gen.rand_spec(rng, n=(2, 6)) if rng.random() < 0.5 else gen.retry(
            rng, gen.rand_diagram, kind=rng.choice(["cid", "macid"]), n=(3, 6), decs=(1, 2), maxdom=3, max_rules=10**9, policies=0.5)
        model = gen.build(rng, s)
        net = s.net()
        m.evaluated(s.describe())
        for v in s.nodes:
            if not m.expect(list(model.model.domain[v]) == s.dom[v], f"domain-{s.style[v]}", f"domain of {v} is {model.model.domain[v]}, stated {s.dom[v]}"):
                continue
            t = gen.cpd_to_table(model, v, s.parents(v), s.dom)
            m.event("tables_compared")
            m.expect(np.allclose(t, net.tables[v], atol=1e-9), f"table-{s.style[v]}", f"table of {v} ({s.style[v]}) is not the stated one", {"got": t, "want": net.tables[v]})


def table_order(rng: random.Random, m: Any) -> None:
    """A table whose own outcome labels list a parent's outcomes in another order than the parent's domain."""
    import pycid
    from pgmpy.factors.discrete import TabularCPD

    dom = [["a", "b"], ["lo", "mid", "hi"], [3, 5]][rng.randrange(3)]
    perm = list(dom)
    while perm == dom:
        rng.shuffle(perm)
    rows = {o: gen.rand_dist(rng, 2, "free") for o in dom}
    model = pycid.CausalBayesianNetwork([("P", "V")])
    model.add_cpds(TabularCPD("P", len(dom), [[1 / len(dom)]] * len(dom), state_names={"P": list(dom)}))
    model.add_cpds(TabularCPD("V", 2, np.array([rows[o] for o in perm]).T, evidence=["P"], evidence_card=[len(dom)],
                              state_names={"V": [0, 1], "P": list(perm)}))
    t = gen.cpd_to_table(model, "V", ["P"], {"P": dom, "V": [0, 1]})
    m.evaluated(["tableorder", dom, perm])
    m.event("permuted_label_tables")
    m.expect(np.allclose(t, np.array([rows[o] for o in dom]), atol=1e-9), "tabular-evidence-state-order",
             f"a table labelled over P={perm} was read as if labelled {dom}")
