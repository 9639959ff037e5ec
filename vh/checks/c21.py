"""C21: corrections and patterns derived from flows, run branch by branch against the open graph's map.

Open graphs with causal, generalised and Pauli flows are generated together with a valid flow (arbitrary layering and
correction sets, not only the maximally delayed and focused ones) and Clifford decorations on outputs.  The corrections
must be those of the definition; the pattern for the default order and for generated total orders must run and implement,
on every (sampled, when many) branch and with equal probability, the map computed directly from the open graph with all
outcomes 0 (for order tests: all permutations of few measured nodes, perturbed and malformed orders).  On arbitrary open
graphs, pattern extraction must succeed exactly when the reference finds a flow, again with the right map.
"""
from __future__ import annotations

import contextlib
import io
import itertools
import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import XZCorrectionsGenericError, XZCorrectionsGenericErrorReason
from graphix.opengraph import OpenGraph, OpenGraphError
from vh import big, conv, flowgen, gen, ref
from vh.checks import c19
from vh.core import Info, Sub, check
from vh.flowref import G
from vh.util import deterministic_map, raises

CLS = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}


def build(case: Any) -> OpenGraph[Any]:
    og = conv.opengraph(case)
    return OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, {v: conv.clifford(w) for v, w in case.get("cliffords", [])})


def reference_map(case: Any) -> np.ndarray:
    """Map of the open graph (all outcomes 0) including the Cliffords on the outputs."""
    m = ref.opengraph_map(case)
    words = dict((v, w) for v, w in case.get("cliffords", []))
    return ref.kron_all([ref.word(words[v]) if v in words else np.eye(2) for v in case["out"]]) @ m


def cliffords(draw: Any, og: dict[str, Any]) -> dict[str, Any]:
    words = []
    if draw(st.integers(0, 2)) == 0:
        words = [[v, draw(st.sampled_from(gen.CLIFF_WORDS))] for v in og["out"] if draw(st.booleans())]
    return {**og, "cliffords": words}


@st.composite
def flows(draw: Any, large: bool = False) -> dict[str, Any]:
    kind = draw(st.sampled_from(["c", "g", "p", "p"]))
    if large:
        og = draw(big.seeded(big.causal, 8, 30, max_wires=4) if kind == "c" else big.seeded(big.planes, 8, 25, axes=0.4 if kind == "p" else 0.0, changes=0))
    elif kind == "c":
        og = draw(c19.causal_graphs(3, 3))
    else:
        og = draw(gen.gflow_graphs(max_out=3, max_meas=5, paulis=False, min_meas=1))
        og = {k: v for k, v in og.items() if k != "p"}
        og["meas"] = [[v, ["PL", m[1]]] for v, m in og["meas"]]
        if kind == "p":
            og = flowgen.relabel(draw, og, draw(st.sampled_from([1, 1, 2, 3])))
    got = flowgen.draw_flow(draw, og, kind)
    assert got is not None
    og = cliffords(draw, flowgen.bloch(draw, og))
    og["nodes"] = list(draw(st.permutations(og["nodes"])))
    meas = [v for v, _ in og["meas"]]
    orders = [list(draw(st.permutations(meas))) for _ in range(2)]
    tweak = [draw(st.integers(0, 99)) for _ in range(4)]
    return {"kind": kind, "og": og, "cf": got[0], "layers": got[1], "orders": orders, "tweak": tweak, "picks": draw(gen.picks())}


def compatible(order: list[int], layers: list[list[int]], meas: set[int]) -> bool:
    if sorted(order) != sorted(meas):
        return False
    pos = {v: i for i, layer in enumerate(layers) for v in layer}
    return all(pos[a] >= pos[b] for a, b in zip(order, order[1:]))


def run(pattern: Any, case: Any, want: np.ndarray, info: Info, what: str) -> dict[str, Any]:
    pattern.check_runnability()
    d = conv.describe(pattern)
    check(d["in"] == list(case["in"]) and d["out"] == list(case["out"]), lambda: f"{what}: inputs {d['in']} and outputs {d['out']} instead of {case['in']} and {case['out']}")
    check(sorted(ref.measured(d["cmds"])) == sorted(v for v, _ in case["meas"]), f"{what}: wrong measured nodes")
    got = deterministic_map(d, case_picks(case), info, what)
    full = want * 2 ** (len(case["meas"]) / 2)
    check(ref.same_up_to_phase(got, full, 1e-6), lambda: f"{what}: map\n{np.round(got, 4).tolist()}\ninstead of\n{np.round(full, 4).tolist()}")
    return d


def case_picks(case: Any) -> list[int]:
    return case.get("picks", [])


def oracle(case: Any, info: Info) -> None:
    og = build(case["og"])
    g = G.of(case["og"])
    data = {**case["og"], "picks": case["picks"]}
    kind = case["kind"]
    layers = [set(x) for x in case["layers"]]
    cf = {v: set(s) for v, s in case["cf"]}
    meas = set(cf)
    flow = CLS[kind](og, {v: frozenset(s) for v, s in cf.items()}, tuple(frozenset(x) for x in layers))
    flow.check_well_formed()
    xz = flow.to_xzcorrections()
    pos = {v: i for i, layer in enumerate(layers) for v in layer}
    wx = {v: {w for w in s if pos[w] < pos[v]} for v, s in cf.items()}
    wz = {v: {w for w in g.unmask(g.odd(g.mask(s))) if pos[w] < pos[v]} for v, s in cf.items()}
    check({v: set(s) for v, s in xz.x_corrections.items() if s} == {v: s for v, s in wx.items() if s}, lambda: f"X-corrections {xz.x_corrections} instead of {wx}")
    check({v: set(s) for v, s in xz.z_corrections.items() if s} == {v: s for v, s in wz.items() if s}, lambda: f"Z-corrections {xz.z_corrections} instead of {wz}")
    xz.check_well_formed()
    check(isinstance(xz, XZCorrections) and [set(x) for x in xz.partial_order_layers] == layers, "the corrections have another order")
    order = list(xz.generate_total_measurement_order())
    check(compatible(order, case["layers"], meas), lambda: f"generated order {order} is not compatible with {layers}")
    want = reference_map(data)
    info.nt(bool(meas) and np.linalg.norm(want) > 1e-9)
    info.label(flowgen.KINDS[kind])
    if len(layers) > 2:
        info.label("several layers")
    anachronical = [v for v, s in cf.items() if (s | g.unmask(g.odd(g.mask(s)))) - wx[v] - wz[v] - {v}]
    if anachronical:
        info.label("corrections outside the future")
    if case["og"]["cliffords"]:
        info.label("Cliffords on outputs")
    run(xz.to_pattern(), data, want, info, "default order")
    # total orders
    good = [v for layer in reversed(case["layers"][1 if case["og"]["out"] else 0:]) for v in sorted(layer, key=lambda v: case["orders"][0].index(v))]
    t = case["tweak"]
    swapped = list(good)
    if len(good) > 1:
        i = t[0] % (len(good) - 1)
        swapped[i], swapped[i + 1] = swapped[i + 1], swapped[i]
    cands = [good, swapped, *case["orders"]]
    if good:
        cands += [[*good, good[t[1] % len(good)]], good[1:], [*good[:-1], good[0]], [*good, -1]]
    if case["og"]["out"]:
        cands += [[*good, case["og"]["out"][0]], [case["og"]["out"][t[2] % len(case["og"]["out"])], *good[1:]]]
    if len(meas) <= 4:
        cands += [list(x) for x in itertools.permutations(sorted(meas))]
    ran = 0
    for o in cands:
        ok = compatible(o, case["layers"], meas)
        with contextlib.redirect_stdout(io.StringIO()):
            got = xz.is_compatible(o)
        check(got is ok, lambda: f"order {o} compatible with {case['layers']}: {got}")
        info.label("compatible order" if ok else "incompatible order")
        if ok and ran < 2:
            ran += 1
            d = run(xz.to_pattern(total_measurement_order=o), data, want, info, f"order {o}")
            check(ref.measured(d["cmds"]) == o, lambda: f"measurement order {ref.measured(d['cmds'])} instead of {o}")
        elif not ok:
            with contextlib.redirect_stdout(io.StringIO()):
                err = raises(XZCorrectionsGenericError, lambda: xz.to_pattern(total_measurement_order=o))
            check(err is not None and err.reason == XZCorrectionsGenericErrorReason.IncompatibleOrder, lambda: f"pattern for the incompatible order {o}: {err!r}")  # type: ignore[attr-defined]


@st.composite
def graphs(draw: Any, large: bool = False) -> dict[str, Any]:
    kind = draw(st.sampled_from(["built", "causal", "any"]))
    if large:
        og = draw(big.seeded(big.planes, 8, 35, axes=0.4 if kind == "any" else 0.0, changes=0))
    elif kind == "causal":
        og = draw(c19.causal_graphs(3, 3))
    elif kind == "built":
        og = draw(gen.gflow_graphs(max_out=3, max_meas=5, paulis=False, min_meas=1))
        og = {k: v for k, v in og.items() if k != "p"}
        og["meas"] = [[v, ["PL", m[1]]] for v, m in og["meas"]]
        og = flowgen.relabel(draw, og, draw(st.sampled_from([0, 1, 2, 3])))
    else:
        og = draw(gen.open_graphs(max_nodes=6, kinds="labels", min_nodes=0))
    if draw(st.integers(0, 4 if large else 2)) == 0 and og["nodes"]:
        og = c19.mutate(draw, og)
    og = cliffords(draw, flowgen.bloch(draw, og, pauli_like=draw(st.booleans())))
    og["nodes"] = list(draw(st.permutations(og["nodes"])))
    og["picks"] = draw(gen.picks())
    return og


def graph_oracle(case: Any, info: Info) -> None:
    og = build(case)
    g = G.of(case)
    exists = g.find("p") is not None
    info.label("flow" if exists else "no flow")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not exists:
            info.nt(bool(case["meas"]))
            check(raises(OpenGraphError, og.to_pattern) is not None, "pattern extracted although there is no flow")
            return
        pattern = og.to_pattern()
    want = reference_map(case)
    info.nt(bool(case["meas"]) and np.linalg.norm(want) > 1e-9)
    if not case["in"]:
        info.label("no inputs")
    if case["cliffords"]:
        info.label("Cliffords on outputs")
    if all(m == ["B", "XY", m[-1]] for _, m in case["meas"]) and g.find("c") is not None:
        info.label("causal flow")
    run(pattern, case, want, info, "pattern of the open graph")


SUBS = [
    Sub("flows", flows, oracle, 2000, 40000, shards=8, rule="at least one measured node and a non-zero map"),
    Sub("graphs", graphs, graph_oracle, 4000, 80000, shards=8, rule="at least one measured node; a non-zero map where there is a flow"),
    Sub("large flows", lambda: flows(large=True), oracle, 200, 6000, shards=5, rule="as flows (8-30 nodes)"),
    Sub("large graphs", lambda: graphs(large=True), graph_oracle, 300, 8000, shards=5, rule="as graphs (8-35 nodes)"),
]
