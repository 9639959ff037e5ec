"""C19: flow finding against an independent layer-by-layer search over GF(2).

All labelled open graphs with up to 2 nodes (3 in the thorough tier) are enumerated with every input set, output set and
plane or axis; larger ones are generated: arbitrary ones, graphs with a gflow or causal flow by construction (more
outputs than inputs, up to 11 nodes), and such graphs with an edge or label changed.  Each answer of the three searches is
judged by an independent solver: existence, all conditions of the definition, and minimal depth.  The reference solver
itself is compared with brute force over all correction sets on small graphs.
"""
from __future__ import annotations

import itertools
from typing import Any

from hypothesis import strategies as st

from graphix.flow.core import CausalFlow, GFlow, PauliFlow
from graphix.opengraph import OpenGraph, OpenGraphError
from vh import big, conv, gen
from vh.core import HarnessError, Info, Sub, check
from vh.flowref import LABELS, G
from vh.util import raises


def lab(name: str) -> list[Any]:
    return ["PL", name] if len(name) == 2 else ["AX", name]


def small(tier: str) -> Any:
    for n in range(0, 3 if tier == "quick" else 4):
        nodes = list(range(n))
        pairs = list(itertools.combinations(nodes, 2))
        for emask in range(1 << len(pairs)):
            edges = [list(p) for k, p in enumerate(pairs) if (emask >> k) & 1]
            for imask in range(1 << n):
                ins = [v for v in nodes if (imask >> v) & 1]
                for labels in itertools.product([None, *LABELS], repeat=n):
                    yield {"nodes": nodes, "edges": edges, "in": ins, "out": [v for v in nodes if labels[v] is None],
                           "meas": [[v, lab(labels[v])] for v in nodes if labels[v]]}


@st.composite
def causal_graphs(draw: Any, max_wires: int = 4, max_len: int = 4) -> dict[str, Any]:
    """Graphs with a causal flow by construction: wires and edges compatible with a total order."""
    k = draw(st.integers(1, max_wires))
    lens = draw(st.lists(st.integers(1, max_len), min_size=k, max_size=k))
    total = sum(lens)
    seq = list(draw(st.permutations([w for w in range(k) for _ in range(lens[w])])))
    names = draw(gen.labels(total))
    prev: dict[int, int | None] = {}
    wires: list[list[int]] = [[] for _ in range(k)]
    time = {}
    for t, w in enumerate(seq):
        v = names[t]
        time[v] = t
        prev[v] = wires[w][-1] if wires[w] else None
        wires[w].append(v)
    edges = {tuple(sorted((a, b))) for w in wires for a, b in zip(w, w[1:])}
    cand = []
    for a, b in itertools.combinations(names, 2):
        pa, pb = prev[a], prev[b]
        if tuple(sorted((a, b))) in edges:
            continue
        if (pa is None or time[pa] < time[b]) and (pb is None or time[pb] < time[a]):
            cand.append((a, b))
    mask = draw(st.integers(0, (1 << len(cand)) - 1)) if cand else 0
    if draw(st.booleans()) and cand:
        mask &= draw(st.integers(0, (1 << len(cand)) - 1))
    edges |= {tuple(sorted(e)) for i, e in enumerate(cand) if (mask >> i) & 1}
    outs = [w[-1] for w in wires]
    starts = [w[0] for w in wires]
    imask = draw(st.integers(0, (1 << k) - 1)) if draw(st.booleans()) else (1 << k) - 1
    ins = [v for i, v in enumerate(starts) if (imask >> i) & 1]
    nodes = list(draw(st.permutations(names)))
    meas = [[v, lab("XY")] for v in nodes if v not in outs]
    return {"nodes": nodes, "edges": sorted(list(e) for e in edges), "in": list(draw(st.permutations(ins))), "out": list(draw(st.permutations(outs))), "meas": meas}


def mutate(draw: Any, og: dict[str, Any]) -> dict[str, Any]:
    """One or two small changes: toggled edges, labels, inputs."""
    og = {**og, "edges": [list(e) for e in og["edges"]], "meas": [list(m) for m in og["meas"]]}
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(st.sampled_from(["edge", "edge", "label", "input"]))
        if kind == "edge" and len(og["nodes"]) >= 2:
            a = draw(st.sampled_from(og["nodes"]))
            b = draw(st.sampled_from([x for x in og["nodes"] if x != a]))
            e = sorted([a, b])
            og["edges"] = [x for x in og["edges"] if sorted(x) != e] if e in [sorted(x) for x in og["edges"]] else [*og["edges"], e]
        elif kind == "label" and og["meas"]:
            i = draw(st.integers(0, len(og["meas"]) - 1))
            og["meas"][i] = [og["meas"][i][0], lab(draw(st.sampled_from(LABELS)))]
        elif kind == "input":
            v = draw(st.sampled_from(og["nodes"]))
            og["in"] = [x for x in og["in"] if x != v] if v in og["in"] else [*og["in"], v]
    return og


@st.composite
def built(draw: Any) -> dict[str, Any]:
    """Graphs with a gflow by construction, with some planes turned into axes; sometimes perturbed."""
    og = draw(gen.gflow_graphs(max_out=5, max_meas=7, paulis=False, min_meas=2))
    og = {k: v for k, v in og.items() if k != "p"}
    rel = draw(st.sampled_from([0, 0, 1, 2]))
    meas = []
    for v, m in og["meas"]:
        name = m[1]
        if rel and draw(st.integers(0, 2)) < rel:
            name = draw(st.sampled_from(list(name)))
        meas.append([v, lab(name)])
    og["meas"] = meas
    og["nodes"] = list(draw(st.permutations(og["nodes"])))
    if draw(st.booleans()):
        og = mutate(draw, og)
    return og


@st.composite
def causal(draw: Any) -> dict[str, Any]:
    og = draw(causal_graphs())
    return mutate(draw, og) if draw(st.booleans()) else og


@st.composite
def arbitrary(draw: Any) -> dict[str, Any]:
    kinds = draw(st.sampled_from(["labels", "labels", "planes", "mixed", "xylab", "axes"]))
    og = draw(gen.open_graphs(max_nodes=7, kinds="labels" if kinds in ("xylab", "axes") else kinds, min_nodes=2))
    if kinds == "xylab":
        og["meas"] = [[v, lab("XY")] for v, _ in og["meas"]]
    if kinds == "axes":
        og["meas"] = [[v, m if m[0] == "AX" else ["AX", m[1][0]]] for v, m in og["meas"]]
    return og


def self_check(g: G, kind: str, want: Any) -> None:
    """The reference solver against brute force over all correction sets, layer by layer."""
    layers, done = [], g.outs
    if g.outs:
        layers.append(g.outs)
    while done != g.all:
        new = 0
        for u in range(g.n):
            if not (done >> u) & 1 and any(not (p & g.ins) and not g.conditions(kind, u, p, done) for p in range(1 << g.n)):
                new |= 1 << u
        if not new:
            layers = None  # type: ignore[assignment]
            break
        layers.append(new)
        done |= new
    if (want is None) != (layers is None) or (want is not None and want[0] != layers):
        raise HarnessError(f"reference solver is wrong: {want} instead of {layers}")


def oracle(case: Any, info: Info) -> None:
    og = conv.opengraph(case)
    g = G.of(case)
    before = (sorted(og.graph.nodes), sorted(map(sorted, og.graph.edges)), dict(og.measurements))
    planar = all(len(x) == 2 for x in g.labels if x)
    kinds = [("p", OpenGraph.to_pauliflow_or_none, OpenGraph.to_pauliflow, PauliFlow)]
    if planar:
        kinds += [("g", OpenGraph.to_gflow_or_none, OpenGraph.to_gflow, GFlow), ("c", OpenGraph.to_causalflow_or_none, OpenGraph.to_causalflow, CausalFlow)]
    for kind, fn, strict, cls in kinds:
        want = g.find(kind)
        if g.n <= 4:
            self_check(g, kind, want)
        got = fn(og)
        info.nt(bool(case["meas"]))
        if want is None:
            check(got is None, lambda: f"{cls.__name__} {got} returned although none exists")
            check(raises(OpenGraphError, lambda: strict(og)) is not None, f"strict search for {cls.__name__} does not raise")
            info.label(f"no {kind}-flow")
            continue
        info.label(f"{kind}-flow")
        check(got is not None, lambda: f"no {cls.__name__} found although there is one: layers {[sorted(g.unmask(x)) for x in want[0]]}, corrections "
              f"{ {g.nodes[u]: sorted(g.unmask(p)) for u, p in want[1].items()} }")
        assert got is not None
        for f in (got, strict(og)):
            check(isinstance(f, cls), f"{type(f)} instead of {cls}")
            bad = g.problems(kind, f.correction_function, f.partial_order_layers)
            check(not bad, lambda: f"{f} violates {bad}")
            check(len(f.partial_order_layers) == len(want[0]), lambda: f"{f} has {len(f.partial_order_layers)} layers although {[sorted(g.unmask(x)) for x in want[0]]} is possible")
            check(f.og is og or f.og == og, "the flow is for another graph")
            check(f.is_well_formed(), lambda: f"{f} is reported as not well formed")
            if kind in "pg":
                check(f.is_focused(), lambda: f"{f} is not focused")
        if len(want[0]) > 2:
            info.label("several layers")
        if len(case["out"]) > len(case["in"]):
            info.label("more outputs than inputs")
    check(before == (sorted(og.graph.nodes), sorted(map(sorted, og.graph.edges)), dict(og.measurements)), "the search changed the graph")


SUBS = [
    Sub("small", None, oracle, 1500, enumerate=small, shards=4, rule="at least one measured node"),
    Sub("arbitrary", arbitrary, oracle, 3000, 60000, shards=4, rule="at least one measured node"),
    Sub("built", built, oracle, 3000, 60000, shards=4, rule="at least one measured node"),
    Sub("causal", causal, oracle, 1500, 30000, shards=2, rule="at least one measured node"),
    Sub("large", lambda: big.seeded(big.planes, 12, 55, max_out=6), oracle, 1000, 20000, shards=5, rule="at least one measured node"),
]
