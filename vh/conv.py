"""JSON descriptions <-> graphix objects."""
from __future__ import annotations

from functools import cache
from typing import Any, Mapping, Sequence

import networkx as nx
import numpy as np

from graphix import Circuit, Pattern, command
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.states import BasicStates, PlanarState
from vh import ref
from vh.core import Fail, HarnessError

AXES = {"X": Axis.X, "Y": Axis.Y, "Z": Axis.Z}
PLANES = {"XY": Plane.XY, "YZ": Plane.YZ, "XZ": Plane.XZ}


def _cliff_words() -> list[str]:
    """24 words over H, S denoting the single-qubit Cliffords up to phase (matrix product order)."""
    found: list[tuple[str, np.ndarray]] = [("", ref.I2)]
    frontier = [("", ref.I2)]
    while frontier:
        new = []
        for w, m in frontier:
            for g in "SH":
                w2, m2 = g + w, ref.BASIS1[g] @ m
                if not any(ref.same_up_to_phase(m2, q) for _, q in found):
                    found.append((w2, m2))
                    new.append((w2, m2))
        frontier = new
    assert len(found) == 24
    return [w for w, _ in found]


CLIFF_WORDS = _cliff_words()


def _edge_safe(w: str) -> bool:
    m = ref.word(w)
    return bool(np.allclose(m[0, 1], 0) or np.allclose(m[0, 0], 0))


CLIFF_EDGE_SAFE = {w: _edge_safe(w) for w in CLIFF_WORDS}


@cache
def clifford(w: str) -> Clifford:
    m = ref.word(w)
    for c in Clifford:
        if ref.same_up_to_phase(np.asarray(c.matrix), m):
            return c
    raise Fail(f"no Clifford has matrix {m}")


def measurement(m: Sequence[Any]) -> Measurement:
    if m[0] == "B":
        return BlochMeasurement(m[2], PLANES[m[1]])
    return PauliMeasurement(AXES[m[1]], Sign.PLUS if m[2] > 0 else Sign.MINUS)


def meas_desc(m: Any) -> list[Any]:
    if isinstance(m, PauliMeasurement):
        return ["P", m.axis.name, 1 if m.sign == Sign.PLUS else -1]
    if isinstance(m, BlochMeasurement):
        return ["B", m.plane.name, float(m.angle)]  # type: ignore[arg-type]
    raise Fail(f"unexpected measurement {m!r}")


def state(s: Any) -> PlanarState:
    if isinstance(s, str):
        return getattr(BasicStates, s)
    return PlanarState(PLANES[s[1]], s[2])


def state_desc(s: Any) -> list[Any]:
    if isinstance(s, PlanarState):
        return ["P", s.plane.name, float(s.angle)]
    raise Fail(f"unexpected state {s!r}")


def cmd(c: Sequence[Any]) -> Any:
    k = c[0]
    if k == "N":
        return command.N(c[1], state(c[2])) if c[2] != "PLUS" else command.N(c[1])
    if k == "E":
        return command.E((c[1], c[2]))
    if k == "M":
        return command.M(c[1], measurement(c[2]), set(c[3]), set(c[4]))
    if k == "X":
        return command.X(c[1], set(c[2]))
    if k == "Z":
        return command.Z(c[1], set(c[2]))
    if k == "C":
        return command.C(c[1], clifford(c[2]))
    if k == "T":
        return command.T()
    raise HarnessError(f"bad command {c}")


def pattern(d: Mapping[str, Any]) -> Pattern:
    return Pattern(input_nodes=d["in"], cmds=[cmd(c) for c in d["cmds"]], output_nodes=d["out"])


def cmd_desc(c: Any) -> list[Any]:
    name = type(c).__name__
    if isinstance(c, command.N):
        return ["N", c.node, state_desc(c.state)]
    if isinstance(c, command.E):
        return ["E", c.nodes[0], c.nodes[1]]
    if isinstance(c, command.M):
        return ["M", c.node, meas_desc(c.measurement), sorted(c.s_domain), sorted(c.t_domain)]
    if isinstance(c, command.X):
        return ["X", c.node, sorted(c.domain)]
    if isinstance(c, command.Z):
        return ["Z", c.node, sorted(c.domain)]
    if isinstance(c, command.C):
        return ["C", c.node, np.asarray(c.clifford.matrix)]
    if name == "T":
        return ["T"]
    raise Fail(f"unexpected command {name} in pattern: {c!r}")


def describe(p: Pattern) -> dict[str, Any]:
    return {"in": list(p.input_nodes), "cmds": [cmd_desc(c) for c in p], "out": list(p.output_nodes)}


def freeze(p: Pattern) -> str:
    """Exact textual content of a pattern (for aliasing checks)."""
    return repr((p.input_nodes, p.output_nodes, [(cmd_desc(c)[:2] + [np.round(x, 12).tolist() if isinstance(x, np.ndarray) else x for x in cmd_desc(c)[2:]]) for c in p]))


def circuit(c: Mapping[str, Any]) -> Circuit:
    q = Circuit(c["w"])
    for op in c["ops"]:
        add_gate(q, op)
    return q


def add_gate(q: Circuit, op: Sequence[Any]) -> None:
    k = op[0]
    if k == "H":
        q.h(op[1])
    elif k == "S":
        q.s(op[1])
    elif k == "X":
        q.x(op[1])
    elif k == "Y":
        q.y(op[1])
    elif k == "Z":
        q.z(op[1])
    elif k == "I":
        q.i(op[1])
    elif k == "RX":
        q.rx(op[1], op[2])
    elif k == "RY":
        q.ry(op[1], op[2])
    elif k == "RZ":
        q.rz(op[1], op[2])
    elif k == "J":
        q.j(op[1], op[2])
    elif k == "CNOT":
        q.cnot(op[1], op[2])
    elif k == "CZ":
        q.cz(op[1], op[2])
    elif k == "SWAP":
        q.swap(op[1], op[2])
    elif k == "RZZ":
        q.rzz(op[1], op[2], op[3])
    elif k == "CCX":
        q.ccx(op[1], op[2], op[3])
    elif k == "M":
        q.m(op[1], AXES[op[2]])
    else:
        raise HarnessError(f"bad gate {op}")


def gate_desc(i: Any) -> list[Any]:
    k = type(i).__name__
    if k in ("H", "S", "X", "Y", "Z", "I"):
        return [k, i.target]
    if k in ("RX", "RY", "RZ", "J"):
        return [k, i.target, float(i.angle)]
    if k == "CNOT":
        return [k, i.control, i.target]
    if k in ("CZ", "SWAP"):
        return [k, i.targets[0], i.targets[1]]
    if k == "RZZ":
        return [k, i.control, i.target, float(i.angle)]
    if k == "CCX":
        return [k, i.controls[0], i.controls[1], i.target]
    if k == "M":
        return [k, i.target, i.axis.name]
    raise Fail(f"unexpected instruction {i!r}")


def describe_circuit(q: Circuit) -> dict[str, Any]:
    return {"w": q.width, "ops": [gate_desc(i) for i in q.instruction]}


def og_measure(m: Sequence[Any]) -> Any:
    """Also accept bare planes ["PL", "XY"] and axes ["AX", "X"]."""
    if m[0] == "PL":
        return PLANES[m[1]]
    if m[0] == "AX":
        return AXES[m[1]]
    return measurement(m)


def opengraph(d: Mapping[str, Any]) -> OpenGraph[Any]:
    g: nx.Graph[int] = nx.Graph()
    g.add_nodes_from(d["nodes"])
    g.add_edges_from([tuple(e) for e in d["edges"]])
    return OpenGraph(g, tuple(d["in"]), tuple(d["out"]), {n: og_measure(m) for n, m in d["meas"]})


def describe_og(og: OpenGraph[Any]) -> dict[str, Any]:
    return {
        "nodes": sorted(og.graph.nodes), "edges": sorted(sorted(e) for e in og.graph.edges),
        "in": list(og.input_nodes), "out": list(og.output_nodes),
        "meas": sorted([n, meas_desc(m)] for n, m in og.measurements.items()),
    }
