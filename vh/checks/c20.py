"""C20: the well-formedness checks of flows and corrections against an independent reading of the definitions.

Valid causal, generalised and Pauli flows (in arbitrary layerings, with arbitrary correction sets), random almost-flows and
corrections are generated on open graphs with all planes and axes, left alone or changed in one or two places (a
correction set, the domain or image, the order of the layers, missing, repeated, foreign nodes and empty layers, inputs
and outputs).  The check must accept exactly what the reference accepts; otherwise the reason, node and sets of the error
must be a condition that the reference finds violated, and its message must name them.
"""
from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import (
    FlowError,
    FlowGenericError,
    FlowPropositionError,
    FlowPropositionOrderError,
    PartialOrderError,
    PartialOrderLayerError,
    XZCorrectionsError,
    XZCorrectionsGenericError,
    XZCorrectionsOrderError,
)
from vh import big, conv, flowgen, gen
from vh.checks import c19
from vh.core import Info, Sub, check
from vh.flowref import G, dag_generations

CLS = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}
FOREIGN = 977


def planar(og: dict[str, Any], kind: str) -> dict[str, Any]:
    """No axes where the kind of flow is only defined for planes."""
    return og if kind == "p" else {**og, "meas": [[v, m if len(m[1]) == 2 else ["PL", {"X": "XZ", "Y": "YZ", "Z": "XY"}[m[1]]]] for v, m in og["meas"]]}


def base_graph(draw: Any, kind: str, large: bool = False) -> dict[str, Any]:
    if large:
        if kind == "c":
            return draw(big.seeded(big.causal, 10, 40))
        return draw(big.seeded(big.planes, 10, 35, axes=0.4 if kind == "p" else 0.0, changes=0))
    if kind == "c":
        og = draw(c19.causal_graphs(4, 3))
        return planar(c19.mutate(draw, og), kind) if draw(st.integers(0, 3)) == 0 else og
    if draw(st.integers(0, 3)) == 0:
        return draw(gen.open_graphs(max_nodes=6, kinds="planes" if kind == "g" else "labels", min_nodes=1))
    og = draw(gen.gflow_graphs(max_out=3, max_meas=5, paulis=False, min_meas=1))
    og = {k: v for k, v in og.items() if k != "p"}
    return flowgen.relabel(draw, og, draw(st.sampled_from([0, 1, 1, 2, 3])) if kind == "p" else 0)


def random_layers(draw: Any, og: dict[str, Any]) -> list[list[int]]:
    meas = [v for v in og["nodes"] if v not in og["out"]]
    layers = [sorted(og["out"])] if og["out"] else []
    if meas:
        k = draw(st.integers(1, len(meas)))
        where = draw(st.lists(st.integers(0, k - 1), min_size=len(meas), max_size=len(meas)))
        layers += [sorted(v for v, w in zip(meas, where) if w == i) for i in range(k) if i in where]
    return layers


def random_flow(draw: Any, og: dict[str, Any], kind: str) -> tuple[list[list[Any]], list[list[int]]]:
    """Correction sets that are right for a random order where possible."""
    g = G.of(og)
    layers = random_layers(draw, og)
    done = g.outs
    cf = []
    for layer in layers[1 if og["out"] else 0:]:
        for v in layer:
            s = g.correct(kind, g.idx[v], done, draw(st.integers(0, g.all)))
            if s is None:
                s = draw(st.integers(0, g.all)) & ~g.ins
            cf.append([v, sorted(g.unmask(s))])
        done |= g.mask(layer)
    return cf, layers


def toggle(xs: list[int], v: int) -> list[int]:
    return [x for x in xs if x != v] if v in xs else [*xs, v]


def disturb_layers(draw: Any, layers: list[list[int]], nodes: list[int]) -> str:
    kind = draw(st.sampled_from(["move", "move", "move", "swap", "merge", "drop", "repeat", "repeat", "repeat", "repeat", "empty layer", "foreign", "clear", "reverse"]))
    if not layers or not nodes:
        return "none"
    i = draw(st.integers(0, len(layers) - 1))
    v = draw(st.sampled_from(nodes))
    if kind == "move":
        for layer in layers:
            if v in layer:
                layer.remove(v)
        layers[i].append(v)
        if draw(st.integers(0, 3)):
            layers[:] = [x for x in layers if x]
    elif kind == "swap":
        j = draw(st.integers(0, len(layers) - 1))
        layers[i], layers[j] = layers[j], layers[i]
    elif kind == "merge" and len(layers) > 1:
        j = draw(st.integers(0, len(layers) - 1))
        if j != i:
            layers[i] = layers[i] + layers[j]
            del layers[j]
    elif kind == "drop":
        layers[:] = [[x for x in layer if x != v] for layer in layers]
        if draw(st.booleans()):
            layers[:] = [x for x in layers if x]
    elif kind == "repeat":
        if v not in layers[i]:
            layers[i].append(v)
    elif kind == "empty layer":
        layers.insert(i if draw(st.booleans()) else len(layers), [])
    elif kind == "foreign":
        layers[i].append(FOREIGN)
    elif kind == "clear":
        layers.clear()
    elif kind == "reverse":
        layers.reverse()
    return kind


@st.composite
def flows(draw: Any, large: bool = False) -> dict[str, Any]:
    kind = draw(st.sampled_from(["c", "g", "p", "p"]))
    og = base_graph(draw, kind, large)
    got = flowgen.draw_flow(draw, og, kind) if draw(st.integers(0, 3)) else None
    cf, layers = got if got is not None else random_flow(draw, og, kind)
    how = []
    nodes = og["nodes"]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2]))):
        what = draw(st.sampled_from(["toggle", "toggle", "toggle", "add sets", "swap sets", "layers", "layers", "layers", "drop key", "output key", "input", "foreign", "label", "edge", "set"]))
        if what == "layers":
            what = disturb_layers(draw, layers, nodes)
        elif what in ("label", "edge") and og["meas"]:
            og = c19.mutate(draw, og)
            og = planar(og, kind)
        elif what == "output key" and og["out"]:
            cf.append([draw(st.sampled_from(og["out"])), []])
        elif cf:
            i = draw(st.integers(0, len(cf) - 1))
            j = draw(st.integers(0, len(cf) - 1))
            if what == "toggle":
                cf[i] = [cf[i][0], toggle(cf[i][1], draw(st.sampled_from(nodes)))]
            elif what == "set":
                cf[i] = [cf[i][0], sorted(draw(st.sets(st.sampled_from(nodes), max_size=3)))]
            elif what == "add sets":
                cf[i] = [cf[i][0], sorted(set(cf[i][1]) ^ set(cf[j][1]))]
            elif what == "swap sets":
                cf[i], cf[j] = [cf[i][0], cf[j][1]], [cf[j][0], cf[i][1]]
            elif what == "drop key":
                del cf[i]
            elif what == "input" and og["in"]:
                cf[i] = [cf[i][0], toggle(cf[i][1], draw(st.sampled_from(og["in"])))]
            elif what == "foreign":
                cf[i] = [cf[i][0], [*cf[i][1], FOREIGN]]
        how.append(what)
    return {"kind": kind, "og": og, "cf": cf, "layers": layers, "how": how}


def judge_error(err: Exception, bad: list[tuple[str, int | None]], sets: dict[str, Any], layers: list[set[int]]) -> None:
    """The error must name one of the problems."""
    text = str(err)
    check(text.strip() != "" and "{self" not in text, lambda: f"message of {err!r}: {text!r}")
    reason = err.reason.name  # type: ignore[attr-defined]
    if isinstance(err, (FlowPropositionError, FlowPropositionOrderError, XZCorrectionsOrderError)):
        key: tuple[str, int | None] = (reason, err.node)
        check(key in bad, lambda: f"{err!r} reported, but the violated conditions are {bad}")
        want = sets[reason if isinstance(err, XZCorrectionsOrderError) else "cf"]
        check(set(err.correction_set) == set(want.get(err.node, ())), lambda: f"{err!r}: the correction set of {err.node} is {want.get(err.node)}")
        check(str(err.node) in text and (reason in text), lambda: f"message of {err!r} does not name the condition and node: {text!r}")
        check(all(str(v) in text for v in err.correction_set), lambda: f"message of {err!r} does not give the correction set: {text!r}")
        if not isinstance(err, FlowPropositionError):
            pos: dict[int, list[int]] = {}
            for i, layer in enumerate(layers):
                for v in layer:
                    pos.setdefault(v, []).append(i)
            for w in set(err.past_and_present_nodes):
                check(w in pos and max(pos[w]) >= min(pos[err.node]), lambda: f"{err!r}: {w} is not in the past or present of {err.node} in {layers}")
                check(str(w) in text, lambda: f"message of {err!r} does not give node {w}: {text!r}")
    elif isinstance(err, PartialOrderLayerError):
        key = (reason if reason == "FirstLayer" else f"{reason}:{err.layer_index}", None)
        check(key in bad, lambda: f"{err!r} reported, but the violated conditions are {bad}")
        check(set(err.layer) == layers[err.layer_index], lambda: f"{err!r}: layer {err.layer_index} is {layers[err.layer_index]}")
        check(all(str(v) in text for v in err.layer), lambda: f"message of {err!r} does not give the layer: {text!r}")
    else:
        check(isinstance(err, (FlowGenericError, PartialOrderError, XZCorrectionsGenericError)), f"{err!r}")
        check(any(k == reason for k, _ in bad), lambda: f"{err!r} reported, but the violated conditions are {bad}")


def flow_oracle(case: Any, info: Info) -> None:
    og = conv.opengraph(case["og"])
    g = G.of(case["og"])
    kind = case["kind"]
    cf = {v: set(s) for v, s in case["cf"]}
    layers = [set(x) for x in case["layers"]]
    flow = CLS[kind](og, {v: frozenset(s) for v, s in cf.items()}, tuple(frozenset(x) for x in layers))
    bad = g.problems(kind, cf, layers)
    try:
        flow.check_well_formed()
        err = None
    except FlowError as e:
        err = e
    ok = flow.is_well_formed()
    check(ok is (err is None), lambda: f"is_well_formed gives {ok} although check_well_formed gives {err!r}")
    info.nt(bool(case["og"]["meas"]))
    for h in case["how"]:
        info.label(f"changed: {h}")
    if not bad:
        info.label(f"well-formed {flowgen.KINDS[kind]}")
        check(err is None, lambda: f"well-formed flow {flow} rejected: {err!r}")
        return
    check(err is not None, lambda: f"{flow} accepted although it violates {bad}")
    assert err is not None
    info.label(f"{err.reason.name}" if len({b[0] for b in bad}) > 1 else f"only {err.reason.name}")  # type: ignore[attr-defined]
    judge_error(err, bad, {"cf": cf}, layers)


@st.composite
def corrections(draw: Any, large: bool = False) -> dict[str, Any]:
    kind = draw(st.sampled_from(["c", "g", "p", "p"]))
    og = base_graph(draw, kind, large)
    g = G.of(og)
    got = flowgen.draw_flow(draw, og, kind) if draw(st.integers(0, 3)) else None
    xc: list[list[Any]] = []
    zc: list[list[Any]] = []
    if got is not None:
        cf, layers = got
        pos = {v: i for i, layer in enumerate(layers) for v in layer}
        for v, s in cf:
            x = [w for w in s if pos[w] < pos[v]]
            z = [w for w in sorted(g.unmask(g.odd(g.mask(s)))) if pos[w] < pos[v]]
            if x or draw(st.integers(0, 4)) == 0:
                xc.append([v, x])
            if z or draw(st.integers(0, 4)) == 0:
                zc.append([v, z])
    else:
        layers = random_layers(draw, og)
        pos = {v: i for i, layer in enumerate(layers) for v in layer}
        wild = draw(st.integers(0, 3)) == 0
        for v in og["nodes"]:
            if v in og["out"]:
                continue
            for c in (xc, zc):
                s = sorted(draw(st.sets(st.sampled_from(og["nodes"]), max_size=3)))
                s = s if wild else [w for w in s if pos[w] < pos[v]]
                if s:
                    c.append([v, s])
    how = []
    nodes = og["nodes"]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        what = draw(st.sampled_from(["toggle", "toggle", "layers", "layers", "layers", "output key", "foreign key", "foreign", "self", "outputs"]))
        c = draw(st.sampled_from([xc, zc]))
        if what == "layers":
            what = disturb_layers(draw, layers, nodes)
        elif what == "output key" and og["out"]:
            v = draw(st.sampled_from(og["out"]))
            if v not in [k for k, _ in c]:
                c.append([v, sorted(draw(st.sets(st.sampled_from(nodes), max_size=2)))])
        elif what == "foreign key":
            c.append([FOREIGN, []])
        elif what == "outputs" and og["meas"] and len(og["out"]) < 3:
            v = og["meas"][0][0]
            og = {**og, "out": [*og["out"], v], "meas": og["meas"][1:]}
        elif c:
            i = draw(st.integers(0, len(c) - 1))
            if what == "toggle":
                c[i] = [c[i][0], toggle(c[i][1], draw(st.sampled_from(nodes)))]
            elif what == "foreign":
                c[i] = [c[i][0], [*c[i][1], FOREIGN]]
            elif what == "self":
                c[i] = [c[i][0], toggle(c[i][1], c[i][0])]
        how.append(what)
    return {"og": og, "x": xc, "z": zc, "layers": layers, "how": how}


def corrections_oracle(case: Any, info: Info) -> None:
    og = conv.opengraph(case["og"])
    g = G.of(case["og"])
    xc = {v: frozenset(s) for v, s in case["x"]}
    zc = {v: frozenset(s) for v, s in case["z"]}
    layers = [set(x) for x in case["layers"]]
    nodes, outs = set(g.nodes), set(case["og"]["out"])
    info.nt(bool(xc or zc))
    for h in case["how"]:
        info.label(f"changed: {h}")
    # the order given by the caller
    xz = XZCorrections(og, xc, zc, tuple(frozenset(x) for x in layers))
    bad = g.xz_problems(xc, zc, layers)
    try:
        xz.check_well_formed()
        err = None
    except XZCorrectionsError as e:
        err = e
    if not bad:
        info.label("well-formed corrections")
        check(err is None, lambda: f"well-formed corrections {xz} rejected: {err!r}")
    else:
        check(err is not None, lambda: f"corrections x={xc}, z={zc}, layers={layers} accepted although they violate {bad}")
        assert err is not None
        info.label(f"{err.reason.name}" if len({b[0] for b in bad}) > 1 else f"only {err.reason.name}")  # type: ignore[attr-defined]
        judge_error(err, bad, {"X": xc, "Z": zc}, layers)
    pairs = {(a, b) for c in (xc, zc) for a, s in c.items() for b in s}
    dag = xz.to_dag()
    check(set(dag.edges) == pairs, lambda: f"graph of corrections {sorted(dag.edges)} instead of {sorted(pairs)}")
    # the order computed from the corrections
    wrong = []
    if not set(xc) | set(zc) <= nodes - outs:
        wrong.append("IncorrectKeys")
    if any(b not in nodes for _, b in pairs):
        wrong.append("IncorrectValues")
    gens = dag_generations([(a, b) for a, b in pairs if b not in outs], {v for v in nodes - outs} | {v for e in pairs for v in e if v not in outs})
    if gens is None:
        wrong.append("ClosedLoop")
    try:
        new = XZCorrections.from_measured_nodes_mapping(og, xc, zc)
        err = None
    except XZCorrectionsError as e:
        err = e
    if wrong:
        check(err is not None, lambda: f"corrections x={xc}, z={zc} accepted although: {wrong}")
        check(isinstance(err, XZCorrectionsGenericError) and err.reason.name in wrong, lambda: f"{err!r} reported instead of {wrong}")
        check(str(err).strip() != "", "empty message")
        info.label(f"mapping: {err.reason.name}")  # type: ignore[union-attr]
        return
    check(err is None, lambda: f"corrections x={xc}, z={zc} rejected: {err!r}")
    assert gens is not None
    info.label("mapping accepted")
    if len(gens) > 1:
        info.label("several layers")
    bad = g.xz_problems(xc, zc, new.partial_order_layers)
    check(not bad, lambda: f"layers {new.partial_order_layers} computed for x={xc}, z={zc} violate {bad}")
    new.check_well_formed()
    check({k: set(s) for k, s in new.x_corrections.items()} == {k: set(s) for k, s in xc.items()} and {k: set(s) for k, s in new.z_corrections.items()} == {k: set(s) for k, s in zc.items()}, "corrections changed")
    check(len(new.partial_order_layers) == len(gens) + bool(outs), lambda: f"layers {new.partial_order_layers} are not as few as possible: {gens}")
    hit = {b for _, b in pairs}
    if nodes - outs:
        check(nodes - outs - hit <= set(new.partial_order_layers[-1]), lambda: f"uncorrected measured nodes {nodes - outs - hit} are not all in the last layer of {new.partial_order_layers}")


SUBS = [
    Sub("flows", flows, flow_oracle, 6000, 200000, shards=6, rule="at least one measured node"),
    Sub("corrections", corrections, corrections_oracle, 3000, 100000, shards=4, rule="at least one correction set"),
    Sub("large flows", lambda: flows(large=True), flow_oracle, 500, 15000, shards=5, rule="at least one measured node (10-40 nodes)"),
    Sub("large corrections", lambda: corrections(large=True), corrections_oracle, 400, 12000, shards=3, rule="at least one correction set (10-40 nodes)"),
]
