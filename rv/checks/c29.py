"""C29: drawings show the diagram's nodes, edges, roles and agents, and printed mechanisms state the mechanism."""
from __future__ import annotations

import math
import random
from typing import Any, Dict, List, Optional, Tuple

import numpy as np

from rv import gen
from rv.common import example_builders, make_cases, rng_of, seed_globals
from rv.hooks import snapshot, snapshot_diff
from rv.ref import Graph

RULE = (
    "random networks and diagrams (1 to 9 nodes, 0 to 12 agents, with and without mechanisms) and bundled examples, drawn plainly, with "
    "own colours, shapes, labels and layouts and with random properties highlighted, relevance graphs and their components included; "
    "what matplotlib was left to show (markers, colours, texts, arrows at the positions of the layout) is read back and compared with "
    "the structure, and a random mechanism's printed form with its table. Distinct by diagram and drawing."
)
ASSUMPTIONS = ["the last marker drawn at a position is the visible one", "drawn off screen (Agg), show() replaced by nothing"]
TECHNIQUE = "runtime monitoring: what each drawing leaves on the figure, read back and judged against the specification"
MIN_EVENTS = {"drawings": 70, "nodes_judged": 400, "edges_judged": 350, "highlighted": 60, "not_highlighted": 60, "agents_told_apart": 50, "scc_drawings": 8, "relevance_drawings": 20,
              "own_style": 10, "crowds": 6, "mechanisms_printed": 150, "rows_judged": 500, "labels_judged": 250, "tables_read": 130}


def cases(tier: str, seed: int) -> List[Dict[str, Any]]:
    k = 1 if tier == "quick" else 14
    return make_cases(seed, plain=60 * k, styled=24 * k, highlight=44 * k, relevance=70 * k, printed=220 * k, labels=60 * k, example=12 if tier == "quick" else 60)


class Shown:
    """What a drawing left on the current axes."""

    def __init__(self) -> None:
        import matplotlib.pyplot as plt
        from matplotlib.collections import PathCollection
        from matplotlib.colors import to_rgba
        from matplotlib.patches import FancyArrowPatch

        ax = plt.gca()
        self.marks: List[Tuple[Tuple[float, float], Tuple[float, ...], Any]] = []
        for c in ax.collections:
            if isinstance(c, PathCollection):
                fc = c.get_facecolors()
                paths = c.get_paths()
                for i, xy in enumerate(np.asarray(c.get_offsets(), dtype=float)):
                    self.marks.append((tuple(xy), tuple(float(x) for x in fc[i % len(fc)]), paths[i % len(paths)]))
        self.texts = [(tuple(float(x) for x in t.get_position()), t.get_text()) for t in ax.texts]
        self.arrows = [p._posA_posB for p in ax.patches if isinstance(p, FancyArrowPatch)]
        self.rgba = to_rgba
        plt.close("all")

    def at(self, pos: Any) -> Optional[Tuple[Any, Any]]:
        hits = [(f, p) for xy, f, p in self.marks if near(xy, pos)]
        return hits[-1] if hits else None

    def named(self, pos: Any) -> List[str]:
        return [t for xy, t in self.texts if near(xy, pos)]

    def edges(self, layout: Dict[str, Any]) -> Any:
        out = set()
        for a, b in self.arrows:
            ends = [[v for v in layout if near(layout[v], p)] for p in (a, b)]
            if not all(len(e) == 1 for e in ends):
                return f"an arrow from {tuple(a)} to {tuple(b)}"
            out.add((ends[0][0], ends[1][0]))
        return out


def near(a: Any, b: Any) -> bool:
    return abs(float(a[0]) - float(b[0])) < 1e-9 and abs(float(a[1]) - float(b[1])) < 1e-9


def marker(shape: str) -> Any:
    from matplotlib.markers import MarkerStyle

    ms = MarkerStyle(shape)
    return ms.get_path().transformed(ms.get_transform())


def same_shape(path: Any, shape: str) -> bool:
    want = marker(shape)
    return path.vertices.shape == want.vertices.shape and bool(np.allclose(path.vertices, want.vertices))


def circle(rng: random.Random, nodes: List[str]) -> Any:
    """A layout that puts every node in a place of its own."""
    turn = rng.random()
    pos = {v: np.array([math.cos(2 * math.pi * (i / len(nodes) + turn)), math.sin(2 * math.pi * (i / len(nodes) + turn))]) for i, v in enumerate(nodes)}
    own = rng.sample(nodes, len(nodes)) if rng.random() < 0.6 else list(nodes)  # a layout lists the nodes in an order of its own
    return lambda g: {v: pos[v] for v in own if v in g.nodes}, pos


def crowd(rng: random.Random) -> gen.Spec:
    """Many agents, with a decision and a utility each."""
    s = gen.Spec()
    s.kind = "macid"
    k = rng.randint(5, 12)
    s.nodes = [f"{c}{i}" for i in range(k) for c in "DU"]
    s.edges = [(f"D{i}", f"U{(i + j) % k}") for i in range(k) for j in range(2)]
    rng.shuffle(s.nodes)
    rng.shuffle(s.edges)
    names = rng.choice([list(range(k)), [f"agent {i}" for i in range(k)], list(range(k, 0, -1))])
    s.agents = {names[i]: {"D": [f"D{i}"], "U": [f"U{i}"]} for i in range(k)}
    s.nopolicy = {f"D{i}" for i in range(k)}
    for v in s.nodes:
        s.dom[v] = [0, 1]
        if v not in s.nopolicy:
            s.tables[v] = gen.rand_table(rng, [2] * len(s.parents(v)), 2, "det")
            s.style[v] = "tab"
        else:
            s.style[v] = "list"
    return s


def spec_of(rng: random.Random) -> gen.Spec:
    if rng.random() < 0.1:
        return crowd(rng)
    kind = rng.choice(["cbn", "cid", "cid", "macid", "macid", "macid"])
    if kind == "cbn":
        return gen.rand_spec(rng, n=(1, 8))
    return gen.retry(rng, gen.rand_diagram, kind=kind, n=(3, 9), agents=1 if kind == "cid" else rng.randint(1, 4), decs=(1, 2), max_rules=10**9,
                     connected=rng.random() < 0.7, util_leaf=rng.random() < 0.6, labels=(0,) if kind == "cid" else rng.choice([(0, 1, 2, 3), ("b", "a", "c", "x")]))


def role(s: gen.Spec, v: str) -> str:
    return "D" if v in s.decisions else "U" if v in s.utilities else "C"


def owner(s: gen.Spec, v: str) -> Any:
    return next((a for a, x in s.agents.items() if v in x["D"] + x["U"]), None)


SHAPE = {"D": "s", "U": "D", "C": "o"}


def judge_structure(m: Any, s: gen.Spec, shown: Shown, pos: Dict[str, Any], what: str) -> None:
    for v in s.nodes:
        m.event("nodes_judged")
        m.expect(v in shown.named(pos[v]), "node-not-named", f"{what}: the text at {v}'s place is {shown.named(pos[v])}", s.describe)
    e = shown.edges(pos)
    m.event("edges_judged", len(s.edges)) if s.edges else None
    m.expect(e == set(s.edges), "edges-drawn", f"{what}: arrows {sorted(e) if isinstance(e, set) else e}, edges {sorted(s.edges)}", s.describe)


def judge_colours(m: Any, s: gen.Spec, shown: Shown, pos: Dict[str, Any], what: str, own: Dict[str, str] = {}) -> None:
    """Default colours: chance nodes light gray, a CID's decisions and utilities their own, a MACID's nodes by agent."""
    grey = shown.rgba("lightgray")
    agents: Dict[Any, Any] = {}
    for v in s.nodes:
        got = shown.at(pos[v])
        if not m.expect(got is not None, "node-not-drawn", f"{what}: nothing is drawn at {v}'s place", s.describe):
            return
        r, c = role(s, v), got[0]
        if v in own:
            m.event("highlighted")
            m.expect(np.allclose(c, shown.rgba(own[v])), "highlight", f"{what}: {v} should be {own[v]}, is {c}", s.describe)
            continue
        if own is not None and what.startswith("highlight"):
            m.event("not_highlighted")
        if r == "C":
            m.expect(np.allclose(c, grey), "colour-chance", f"{what}: chance node {v} has colour {c}", s.describe)
        elif s.kind == "cid":
            want = shown.rgba("lightblue" if r == "D" else "yellow")
            m.expect(np.allclose(c, want), "colour-role", f"{what}: {v} ({r}) has colour {c}", s.describe)
        else:
            m.expect(not np.allclose(c, grey), "colour-agent-grey", f"{what}: {v} of agent {owner(s, v)} looks like a chance node", s.describe)
            agents.setdefault(owner(s, v), []).append((v, c))
    for a, xs in agents.items():
        m.expect(all(np.allclose(c, xs[0][1]) for _, c in xs), "colour-agent", f"{what}: the nodes of agent {a} differ in colour: {xs}", s.describe)
        for b, ys in agents.items():
            if a != b:
                m.event("agents_told_apart")
                m.expect(not np.allclose(xs[0][1], ys[0][1]), "colour-agents-alike", f"{what}: agents {a} and {b} have the same colour", s.describe)


def judge_shapes(m: Any, s: gen.Spec, shown: Shown, pos: Dict[str, Any], what: str, shapes: Dict[str, str]) -> None:
    for v in s.nodes:
        got = shown.at(pos[v])
        if got is not None:
            m.expect(same_shape(got[1], shapes[v]), "shape", f"{what}: {v} ({role(s, v)}) is not drawn with marker {shapes[v]!r}", s.describe)


def run_case(case: Dict[str, Any], m: Any) -> None:
    import matplotlib.pyplot as plt
    import pycid

    rng = rng_of("C29", case)
    seed_globals(rng)
    plt.close("all")
    plt.show = lambda *a, **k: None  # the figure stays for the monitor
    kind = case["kind"]
    if kind == "printed":
        return printed(rng, m)
    if kind == "labels":
        return labelled(rng, m, case)
    if kind == "example":
        builders = example_builders()
        name = sorted(builders)[(case["i"] * 5 + case["seed"]) % len(builders)]
        model = builders[name]()
        s = gen.Spec()
        s.kind = "cid" if isinstance(model, pycid.CID) else "macid" if hasattr(model, "decisions") else "cbn"
        s.nodes, s.edges = list(model.nodes), list(model.edges)
        if hasattr(model, "agents"):
            s.agents = {a: {"D": list(model.agent_decisions[a]), "U": list(model.agent_utilities[a])} for a in model.agents}
        what = f"drawing of {name}"
    else:
        s = spec_of(rng)
        what = f"{kind} drawing"
        model = gen.build(rng, s) if rng.random() < 0.6 else gen.make_structure(s)
    if not s.nodes:
        return
    m.event("crowds", int(len(s.agents) > 4))
    before = snapshot(model)
    layout, pos = circle(rng, s.nodes)
    default = {v: SHAPE[role(s, v)] for v in s.nodes}
    if kind == "relevance":
        if s.kind == "cbn" or not s.decisions:
            return
        return relevance(rng, m, s, model)
    m.evaluated([kind, s.nodes, s.edges, {str(a): x for a, x in s.agents.items()}])
    if kind == "highlight":
        lucky = set(rng.sample(s.nodes, rng.randint(0, len(s.nodes))))
        colour = rng.choice([None, "green", "red", "#123456"])
        place: Dict[str, Any] = {}
        asked: List[str] = []

        def prop(v: str) -> bool:
            asked.append(v)
            return v in lucky

        # draw_property takes no layout: the nodes are where their names are
        if colour is None:
            model.draw_property(prop)
        else:
            model.draw_property(prop, color=colour) if rng.random() < 0.5 else model.draw_property(prop, colour)
        shown = Shown()
        for xy, t in shown.texts:
            if t in s.nodes and any(near(xy, mk[0]) for mk in shown.marks):
                place.setdefault(t, xy)
        if not m.expect(set(place) == set(s.nodes), "node-not-named", f"{what}: only {sorted(place)} are shown of {sorted(s.nodes)}", s.describe):
            return
        if len({tuple(np.round(p, 6)) for p in place.values()}) < len(s.nodes):
            m.event("layout_overlaps")
            return
        judge_structure(m, s, shown, place, what)
        judge_colours(m, s, shown, place, what, {v: colour or "red" for v in lucky})
        judge_shapes(m, s, shown, place, what, default)
    elif kind == "styled":
        m.event("own_style")
        cols = {v: rng.choice(["red", "green", "blue", "#aabbcc", "black"]) for v in s.nodes}
        shapes = {v: rng.choice("osD^") for v in s.nodes}
        labels = {v: f"about {v} {rng.randrange(100)}" for v in s.nodes}
        kw: Dict[str, Any] = {"layout": layout}
        mine = {n for n in ("color", "shape", "label") if rng.random() < 0.7}
        if "color" in mine:
            kw["node_color"] = lambda v: cols[v]
        if "shape" in mine:
            kw["node_shape"] = lambda v: shapes[v]
        if "label" in mine:
            kw["node_label"] = lambda v: labels[v]
        model.draw(**kw)
        shown = Shown()
        judge_structure(m, s, shown, pos, what)
        judge_colours(m, s, shown, pos, what, cols if "color" in mine else {})
        judge_shapes(m, s, shown, pos, what, shapes if "shape" in mine else default)
        if "label" in mine:
            for v in s.nodes:
                spots = [xy for xy, t in shown.texts if t == labels[v]]
                close = spots and min(math.dist(spots[0], pos[x]) for x in s.nodes) if spots else None
                m.expect(len(spots) == 1 and math.dist(spots[0], pos[v]) < 0.5, "label-not-shown", f"{what}: the label of {v} is shown at {spots}, the node at {pos[v]} ({close})", s.describe)
    else:
        model.draw(layout=layout)
        shown = Shown()
        judge_structure(m, s, shown, pos, what)
        judge_colours(m, s, shown, pos, what)
        judge_shapes(m, s, shown, pos, what, default)
    m.event("drawings")
    diff = snapshot_diff(before, snapshot(model))
    m.expect(diff == [], "changed-by-drawing", f"{what} changed the model: {diff}", s.describe)


def relevance(rng: random.Random, m: Any, s: gen.Spec, model: Any) -> None:
    from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph

    decs = list(s.decisions) if rng.random() < 0.7 else rng.sample(s.decisions, rng.randint(1, len(s.decisions)))
    rg = RelevanceGraph(model, decs)
    edges = s.diagram().relevance_edges(decs)
    how = rng.choice(["draw", "sccs", "sccs", "condensed"])
    m.evaluated(["relevance", how, s.nodes, s.edges, {str(a): x for a, x in s.agents.items()}, decs])
    if how == "condensed":
        cg = CondensedRelevanceGraph(model)
        cg.draw()
        shown = Shown()
        m.expect(sorted(t for _, t in shown.texts) == sorted(str(n) for n in cg.nodes), "condensed-drawn", f"the drawing of the condensed graph shows {shown.texts}", s.describe)
        m.event("relevance_drawings")
        return
    (rg.draw if how == "draw" else rg.draw_sccs)()
    shown = Shown()
    place = {t: xy for xy, t in shown.texts}
    if not m.expect(sorted(t for _, t in shown.texts) == sorted(decs), "relevance-nodes-drawn", f"the relevance graph over {decs} shows {sorted(place)}", s.describe):
        return
    if len({tuple(np.round(p, 6)) for p in place.values()}) == len(decs):
        e = shown.edges(place)
        m.expect(e == set(edges), "relevance-edges-drawn", f"the relevance graph shows {e}, relevance is {sorted(edges)}", s.describe)
    m.event("relevance_drawings")
    if how == "sccs":
        m.event("scc_drawings")
        g = {d: {b for a, b in edges if a == d} for d in decs}

        def reach(a: str) -> set:
            out, todo = {a}, [a]
            while todo:
                for b in g[todo.pop()]:
                    if b not in out:
                        out.add(b)
                        todo.append(b)
            return out

        r = {d: reach(d) for d in decs}
        for a in decs:
            for b in decs:
                together = a in r[b] and b in r[a]
                ca, cb = shown.at(place[a]), shown.at(place[b])
                if ca and cb:
                    m.expect(np.allclose(ca[0], cb[0]) == together, "scc-colours", f"{a} and {b} are {'in one component' if together else 'apart'}, drawn {ca[0]} and {cb[0]}", s.describe)


BODIES = (
    "1", "-2.5", "{a}", "{a} + 1", "max({a}, {b})", "({a}, {b})[0]", "[{a}, {b}][1] if {a} > 0 else ({a} + {b}) * 2", "{{0: 0.5, 1: 0.5}}", "dict([(0, 0.3), (1, 0.7)])",
    "int({a} == {b})", "(({a} + 1) * ({b} + 2))", "{{(0, 1)[i]: (0.25, 0.75)[i] for i in range(2)}}", "sum([{a}, {b}, 1])", "'yes' if {a} else 'no'",
)


def labelled(rng: random.Random, m: Any, case: Dict[str, Any]) -> None:
    """Each mechanism's label is shown beside its node: the one given to it, its function's name, the body of its lambda
    (written on a line of its own), or the dictionary or domain it states; a copy shows the same."""
    import importlib.util

    import pycid
    from pycid.core.cpd import ConstantCPD, StochasticFunctionCPD

    names = rng.sample(["Ant", "Bee", "Cat", "Dog", "Elk", "Fox"], rng.randint(1, 6))
    if rng.random() < 0.3:
        names = [f"X{i}" for i in rng.sample(range(12), len(names))]
    edges = [(a, b) for i, a in enumerate(names) for b in names[i + 1 :] if rng.random() < 0.4]
    for b in names[1:]:
        while sum(y == b for _, y in edges) > 2:
            edges.remove(rng.choice([e for e in edges if e[1] == b]))
    pa = {v: [a for a, b in edges if b == v] for v in names}
    word = {v for v in names if any(b == v for _, b in edges)} if rng.random() < 0.3 else set()
    cid = rng.random() < 0.5 and len(names) > 1
    dec = rng.choice(names[:-1]) if cid else None
    model = pycid.CID(edges, decisions=[dec], utilities=[names[-1]]) if cid else pycid.CausalBayesianNetwork(edges)
    model.add_nodes_from(names)
    want: Dict[str, str] = {}
    parts: Dict[str, List[str]] = {}
    args: List[str] = []
    defs: List[str] = []
    later: List[str] = []  # parents first
    for v in names:
        leaf = not any(a == v for a, _ in edges)
        how = rng.choice(["lambda", "lambda", "lambda", "def", "given", "dict", "given-constant", "random"])
        if v == dec:
            how = rng.choice(["domain", "domain", "lambda", "given"])
        a, b = (pa[v] * 2 + ["0", "1"])[:2]
        sig = ", ".join(pa[v])
        body = rng.choice([x for x in BODIES if (leaf and v not in word and v != names[-1]) or "yes" not in x]).format(a=a, b=b)
        sep = " " if sig else ""
        if how == "lambda":
            args.append(f"        {v}=lambda{sep}{sig}: {body},")
            want[v] = body
        elif how == "def":
            defs.append(f"def about_{v}({sig}):\n    return {body}\n")
            args.append(f"        {v}=about_{v},")
            want[v] = f"about_{v}"
        elif how == "given":
            later += ["    model.add_cpds(", f"        StochasticFunctionCPD({v!r}, lambda{sep}{sig}: {body}, model, label='as told: {v}'),", "    )"]
            want[v] = f"as told: {v}"
        elif how == "given-constant":
            later += ["    model.add_cpds(", f"        ConstantCPD({v!r}, {{0: 0.25, 1: 0.75}}, model, label='fixed {v}'),", "    )"]
            want[v] = f"fixed {v}"
        elif how == "random":
            args.append(f"        {v}=RandomCPD(seed={rng.randrange(99)}),")
            parts[v] = ["RandomCPD([0, 1])"]
        elif how == "dict":
            args.append(f"        {v}={{0: 0.125, 1: 0.875}},")
            parts[v] = ["0", "1", "0.125", "0.875"]
        else:
            args.append(f"        {v}=[3, 14, 15],")
            parts[v] = ["3", "14", "15"]
    rng.shuffle(args)
    f = f"stated_{case['i']}_{case['seed']}.py"
    text = "\n".join(["from pycid import RandomCPD", "from pycid.core.cpd import ConstantCPD, StochasticFunctionCPD", "", *defs, "def state(model):", "    model.add_cpds(", *args, "    )", *later, ""])
    with open(f, "w") as out:
        out.write(text)
    try:
        spec = importlib.util.spec_from_file_location(f[:-3], f)
        mod = importlib.util.module_from_spec(spec)  # type: ignore
        spec.loader.exec_module(mod)  # type: ignore
        mod.state(model)
        for what, live in (("the model", model), ("a copy", model.copy()), ("a copy of a copy", model.copy().copy())):
            layout, pos = circle(rng, names)
            live.draw(layout=layout)
            shown = Shown()
            for v in names:
                near_v = [s_ for xy, s_ in shown.texts if math.dist(xy, pos[v]) < 0.3 and not near(xy, pos[v])]
                m.event("labels_judged")
                if v in want:
                    ok = [x.strip() for x in near_v] == [want[v]]
                else:
                    ok = len(near_v) == 1 and all(x in near_v[0] for x in parts[v])
                m.expect(ok, "mechanism-label", f"{what}: beside {v} is {near_v}, expected is {want.get(v, parts.get(v))!r}", {"source": text, "edges": edges})
    finally:
        import os

        os.unlink(f)
    m.evaluated(["labels", edges, text])


def tabled(m: Any, s: gen.Spec, v: str, text: str) -> None:
    """prob_table shows each entry of the table under its parents' outcomes."""
    rows = [[c.strip() for c in ln.strip().strip("|").split("|")] for ln in text.split("\n") if ln.strip().startswith("|")]
    pa = s.parents(v)
    head, body = rows[: len(pa)], rows[len(pa) :]
    want = {}
    for idx in np.ndindex(*s.tables[v].shape):
        vs = [s.dom[p][i] for p, i in zip(pa + [v], idx)]
        want[tuple(sorted(f"{p}({o})" for p, o in zip(pa + [v], vs)))] = float(s.tables[v][idx])
    got: Dict[Any, float] = {}
    try:
        for r in body:
            for j, x in enumerate(r[1:]):
                got[tuple(sorted([r[0]] + [h[1 + j] for h in head]))] = float(x)
    except (ValueError, IndexError):
        m.violation("probability-table", f"the printed probability table of {v} cannot be read", {"text": text})
        return
    m.event("tables_read")
    m.expect(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-3 for k in want), "probability-table", f"the printed probability table of {v} is not its table", {"text": text, "want": {str(k): x for k, x in want.items()}})


def printed(rng: random.Random, m: Any) -> None:
    """repr of a function mechanism: one line per combination of parent outcomes, saying what it does there."""
    import ast

    from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD

    s = gen.rand_spec(rng, n=(1, 4), max_in=3) if rng.random() < 0.5 else gen.retry(rng, gen.rand_diagram, kind="cid", n=(3, 5), max_rules=10**9, policies=0.5)
    model = gen.build(rng, s)
    for v in s.nodes:
        c = model.get_cpds(v)
        if not isinstance(c, StochasticFunctionCPD) or isinstance(c, DecisionDomain):
            continue
        if all(len({str(o) for o in s.dom[x]}) == len(s.dom[x]) for x in s.parents(v) + [v]) and "..." not in c.prob_table():
            tabled(m, s, v, c.prob_table())
        text = repr(c) if rng.random() < 0.5 else str(c)
        m.evaluated([s.nodes, s.edges, v, text])
        m.event("mechanisms_printed")
        head, *lines = text.split("\n")
        rows: Dict[Any, Any] = {}
        ok = v in head
        for ln in lines:
            if "  ->  " not in ln:
                ok = ok and not ln.strip()
                continue
            left, right = ln.split("  ->  ", 1)
            try:
                pv = ast.literal_eval(left.strip())
            except (ValueError, SyntaxError):
                ok = False
                break
            key = tuple(sorted(pv.items()))
            ok = ok and key not in rows
            rows[key] = right
        want = {}
        for idx in np.ndindex(*[len(s.dom[p]) for p in s.parents(v)]):
            want[tuple(sorted((p, s.dom[p][i]) for p, i in zip(s.parents(v), idx)))] = s.tables[v][idx]
        if not m.expect(ok and set(rows) == set(want), "printed-contexts", f"the mechanism of {v} is printed with the contexts {sorted(map(str, rows))}, has {sorted(map(str, want))}", {"text": text}):
            continue
        for key, row in want.items():
            m.event("rows_judged")
            right = rows[key]
            try:
                said = ast.literal_eval(right)
            except (ValueError, SyntaxError):
                said = right
            if not isinstance(said, dict):
                hits = [i for i, o in enumerate(s.dom[v]) if str(o) == right.strip()]
                good = len(hits) == 1 and abs(row[hits[0]] - 1) < 1e-9
            else:
                # outcomes that are left out share what is left
                given = {o: float(p) for o, p in said.items() if p is not None}
                rest = [o for o in s.dom[v] if o not in given]
                full = {**given, **{o: (1 - sum(given.values())) / len(rest) for o in rest}}
                good = set(given) <= set(s.dom[v]) and all(abs(full[o] - p) < 1e-9 for o, p in zip(s.dom[v], row))
            if not m.expect(good, "printed-row", f"the mechanism of {v} is printed as {right} given {key}, is {row.tolist()} over {s.dom[v]}", {"text": text}):
                break
