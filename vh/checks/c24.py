"""C24: circuits extracted from open graphs, compared as matrices with the open graph's own map.

Open graphs with as many inputs as outputs are generated with a flow by construction (gflow graphs, causal-flow graphs,
graphs of circuits), then perturbed and with planes replaced by Pauli measurements, so that generalised and Pauli flows
both occur.  The extracted circuit's matrix must be the open graph's map with all outcomes 0, whichever flow finder the
extraction starts from.  With fewer inputs than outputs (no circuit exists) the extracted exponentials and Clifford map
are checked as operators on the isometry.  Circuits go to an open graph and back.
"""
from __future__ import annotations

import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix.opengraph import OpenGraph, OpenGraphError
from vh import big, conv, flowgen, gen, ref
from vh.checks import c19, c21
from vh.core import Info, Sub, check
from vh.flowref import G
from vh.util import raises


def string_matrix(ps: Any) -> np.ndarray:
    """Matrix of a PauliString (qubit 0 first)."""
    axes = {int(q): a.name for q, a in ps.axes.items()}
    check(all(0 <= q < ps.dim for q in axes), lambda: f"string {ps!r} acts outside its {ps.dim} qubits")
    sign = -1 if ps.sign.value == -1 else 1
    return sign * ref.pauli_string([axes.get(q, "I") for q in range(ps.dim)])


def exponentials(dag: Any, n: int) -> np.ndarray:
    """Product of the exponentials, first ones rightmost."""
    u = np.eye(2**n, dtype=complex)
    for layer in reversed([list(x) for x in dag.partial_order_layers]):
        for v in layer:
            if v not in dag.pauli_exponentials:
                check(v in dag.output_nodes, lambda: f"no exponential for the measured node {v}")
                continue
            e = dag.pauli_exponentials[v]
            a = float(e.angle) * np.pi
            u = (np.cos(a) * np.eye(2**n) + 1j * np.sin(a) * string_matrix(e.pauli_string)) @ u
    return u


def commuting_layers(dag: Any) -> None:
    for layer in dag.partial_order_layers:
        ms = [string_matrix(dag.pauli_exponentials[v].pauli_string) for v in layer if v in dag.pauli_exponentials and float(dag.pauli_exponentials[v].angle) != 0]
        for i, a in enumerate(ms):
            for b in ms[:i]:
                check(np.allclose(a @ b, b @ a), lambda: f"exponentials of the layer {sorted(layer)} do not commute")


def check_extraction(er: Any, case: Any, want: np.ndarray, what: str) -> None:
    """The exponentials and the Clifford map are those of the isometry `want`."""
    n = len(case["out"])
    dag, cm = er.pexp_dag, er.clifford_map
    check(list(dag.output_nodes) == list(case["out"]) == list(cm.output_nodes), f"{what}: wrong output nodes")
    check(list(cm.input_nodes) == list(case["in"]), f"{what}: wrong input nodes")
    check(len(cm.x_map) == len(cm.z_map) == len(case["in"]), f"{what}: wrong number of generator images")
    check(set(dag.pauli_exponentials) == {v for v, _ in case["meas"]}, f"{what}: exponentials for other nodes than the measured ones")
    for v, m in case["meas"]:
        a = float(dag.pauli_exponentials[v].angle)
        check(m[0] == "P" and a == 0 or m[0] == "B" and abs(a - m[2] / 2) < 1e-9, lambda: f"{what}: angle {a} for the measurement {m} of {v}")
    commuting_layers(dag)
    c = exponentials(dag, n).conj().T @ want
    for i in range(len(case["in"])):
        for p, images in (("X", cm.x_map), ("Z", cm.z_map)):
            gen_in = ref.pauli_string([p if j == i else "I" for j in range(len(case["in"]))])
            check(np.allclose(c @ gen_in, string_matrix(images[i]) @ c, atol=1e-6), lambda: f"{what}: the Clifford map sends {p}_{i} to {images[i]}, which the open graph's map does not")


def check_circuit(circuit: Any, n: int, want: np.ndarray, what: str) -> None:
    d = conv.describe_circuit(circuit)
    check(d["w"] == n, lambda: f"{what}: width {d['w']} instead of {n}")
    check(all(o[0] != "M" for o in d["ops"]), f"{what}: measurements in the circuit")
    got, qubits = ref.circuit_map(n, d["ops"])
    check(qubits == list(range(n)) and ref.same_up_to_phase(got, want, 1e-6), lambda: f"{what}: the circuit {d['ops']} implements\n{np.round(got, 4).tolist()}\ninstead of\n{np.round(want, 4).tolist()}")


@st.composite
def graphs(draw: Any, large: bool = False) -> dict[str, Any]:
    kind = draw(st.sampled_from(["built", "built", "built", "causal", "any"]))
    balanced = draw(st.sampled_from([True, True, True, False]))
    if large:
        kind = "built"
        og = draw(big.seeded(big.planes, 8, 30, axes=0.4, changes=0, balanced=balanced))
    elif kind == "causal":
        og = draw(c19.causal_graphs(3, 4))
    elif kind == "built":
        og = draw(gen.gflow_graphs(max_out=3, max_meas=7, paulis=False, min_meas=1))
        used = {w for _, s in og["p"] for w in s}
        cand = [v for v in og["nodes"] if v not in used]
        if balanced and len(cand) >= len(og["out"]):
            og["in"] = list(draw(st.permutations(cand)))[: len(og["out"])]
        og = {k: v for k, v in og.items() if k != "p"}
        og["meas"] = [[v, ["PL", m[1]]] for v, m in og["meas"]]
    else:
        og = draw(gen.open_graphs(max_nodes=6, kinds="labels", min_nodes=0, balanced=balanced))
    if kind != "any":
        og = flowgen.relabel(draw, og, draw(st.sampled_from([0, 1, 2, 3])))
    if draw(st.integers(0, 3)) == 0 and og["nodes"]:
        og = c19.mutate(draw, og)
    og = flowgen.bloch(draw, og, pauli_like=draw(st.booleans()))
    og["cliffords"] = []
    if draw(st.integers(0, 15)) == 0:
        og["cliffords"] = [[v, draw(st.sampled_from(gen.CLIFF_WORDS))] for v in og["out"]]
    og["nodes"] = list(draw(st.permutations(og["nodes"])))
    return og


def quiet(fn: Any) -> Any:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def oracle(case: Any, info: Info) -> None:
    og = c21.build(case)
    n_in, n_out = len(case["in"]), len(case["out"])
    g = G.of(case)
    if g.find("p") is None:
        info.label("no flow")
        check(raises(OpenGraphError, lambda: quiet(og.to_circuit)) is not None, "circuit extracted although there is no flow")
        return
    if case["cliffords"]:
        info.label("Cliffords on outputs")
        check(raises(NotImplementedError, lambda: quiet(og.to_circuit)) is not None, "Cliffords on outputs accepted")
        return
    want = ref.opengraph_map(case) * 2 ** (len(case["meas"]) / 2)
    info.nt(bool(case["meas"]) and n_in == n_out)
    info.label(f"{n_in} inputs, {n_out} outputs")
    flows = [("Pauli flow", quiet(og.to_pauliflow), want)]
    if all(m[0] == "B" for _, m in case["meas"]) and g.find("g") is not None:
        flows.append(("gflow", quiet(og.to_gflow), want))
        info.label("gflow")
    elif all(m[0] == "B" for _, m in case["meas"]):
        check(False, "HARNESS: a Pauli flow but no gflow on a graph of planes")
    inferred = og.infer_pauli_measurements()
    if any(m.to_plane_or_axis() != inferred.measurements[v].to_plane_or_axis() for v, m in og.measurements.items()):
        info.label("inferred Pauli measurements")
    flows.append(("Pauli flow with inferred Pauli measurements", quiet(inferred.to_pauliflow), want))
    for what, flow, _ in flows:
        check(flow.is_focused(), f"{what}: not focused")
        er = flow.extract_circuit()
        case2 = case if flow.og is og else {**case, "meas": [[v, conv.meas_desc(flow.og.measurements[v])] for v, _ in case["meas"]]}
        check_extraction(er, case2, want, what)
        if n_in != n_out:
            check(raises(NotImplementedError, er.to_circuit) is not None, f"{what}: circuit for an isometry")
        else:
            check_circuit(er.to_circuit(), n_out, want, what)
    if n_in == n_out:
        check_circuit(quiet(og.to_circuit), n_out, want, "OpenGraph.to_circuit")
        if any(m[0] == "P" for _, m in case["meas"]):
            info.label("Pauli measurements")
    else:
        check(raises(NotImplementedError, lambda: quiet(og.to_circuit)) is not None, "OpenGraph.to_circuit: circuit for an isometry")
        info.nt(bool(case["meas"]))


@st.composite
def circuits(draw: Any) -> dict[str, Any]:
    c = draw(gen.circuits(max_width=3, max_ops=7, ccx_limit=0, pauli_bias=draw(st.booleans())))
    return {**c, "infer": draw(st.integers(0, 2)), "perm": draw(st.integers(0, 5))}


def circuit_oracle(case: Any, info: Info) -> None:
    c = conv.circuit(case)
    before = repr(c)
    want, _ = ref.circuit_map(case["w"], case["ops"])
    pattern = quiet(lambda: c.transpile().pattern)
    if case["infer"]:
        pattern = pattern.infer_pauli_measurements()
    if case["infer"] == 2:
        pattern.remove_pauli_measurements()
        info.label("Pauli measurements removed")
    og: OpenGraph[Any] = quiet(pattern.to_opengraph)
    if og.output_cliffords:
        info.label("Cliffords on outputs")
        return
    back = quiet(og.to_circuit)
    info.nt(len(case["ops"]) > 0 and len(og.measurements) > 0)
    check_circuit(back, case["w"], want, "circuit -> pattern -> open graph -> circuit")
    again = quiet(lambda: back.transpile().pattern.to_opengraph().infer_pauli_measurements().to_circuit())
    check_circuit(again, case["w"], want, "twice")
    check(repr(c) == before, "the circuit was changed")


SUBS = [
    Sub("graphs", graphs, oracle, 16000, 300000, shards=8, rule="has a flow, at least one measured node, no Cliffords on outputs"),
    Sub("circuits", circuits, circuit_oracle, 4000, 80000, shards=8, rule="at least one gate and one measured node"),
    Sub("large graphs", lambda: graphs(large=True), oracle, 500, 12000, shards=8, rule="as graphs (8-30 nodes)"),
    Sub("large circuits", lambda: st.builds(lambda c, i: {**c, "infer": i, "perm": 0}, big.seeded(big.circuit, 8, 22, min_width=2, max_width=4, ccx=0, pauli=0.5), st.integers(0, 2)),
        circuit_oracle, 160, 5000, shards=8, rule="as circuits (8-22 gates)"),
]
