"""C23: operations on open graphs against independent definitions.

Compositions of generated graphs (inputs onto outputs, arbitrary partial merges with compatible or incompatible
measurements, fresh labels, Cliffords on outputs, empty graphs, malformed mappings) are compared with a direct
construction from the documented rules, and with the contraction of the two maps where inputs are merged with outputs.
Equality tests are asked about copies with one generated difference, neighbourhoods about random subsets, measurement
mappings about every generated measurement, and the constructor about data with generated inconsistencies.
"""
from __future__ import annotations

import math
from typing import Any

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from graphix.clifford import Clifford
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.opengraph import OpenGraph, OpenGraphError
from vh import conv, gen, ref
from vh.checks import c19, c21
from vh.core import Info, Sub, check
from vh.util import raises

DIAGONAL = ["", "Z", "S", "SZ"]


def desc(og: OpenGraph[Any]) -> tuple[Any, ...]:
    return (sorted(og.graph.nodes), sorted(sorted(e) for e in og.graph.edges), list(og.input_nodes), list(og.output_nodes),
            sorted((v, repr(m)) for v, m in og.measurements.items()), sorted((v, c.name) for v, c in og.output_cliffords.items()))


def after(vec: np.ndarray, c: Clifford | None) -> np.ndarray:
    """Observable measured when c is applied before a measurement of that observable."""
    if c is None:
        return vec
    m = np.asarray(c.matrix)
    o = sum(x * p for x, p in zip(vec, (ref.PAULI["X"], ref.PAULI["Y"], ref.PAULI["Z"])))
    w = m.conj().T @ o @ m
    return np.array([np.trace(w @ ref.PAULI[k]).real / 2 for k in "XYZ"])


# ---------------------------------------------------------------- composition


@st.composite
def some_graph(draw: Any, max_nodes: int = 5) -> dict[str, Any]:
    how = draw(st.integers(0, 3))
    if how == 0:
        og = draw(gen.open_graphs(max_nodes=max_nodes, kinds="mixed", min_nodes=0))
    elif how == 1:
        og = draw(c19.causal_graphs(3, 3))
        og["meas"] = [[v, ["B", "XY", draw(gen.angles())]] for v, _ in og["meas"]]
    else:
        # all nodes are likely to be ports
        og = draw(gen.open_graphs(max_nodes=max_nodes, kinds="mixed", min_nodes=1))
        k = draw(st.integers(0, len(og["nodes"])))
        og["in"] = list(draw(st.permutations(og["nodes"])))[:k]
    return og


@st.composite
def composed(draw: Any) -> dict[str, Any]:
    a, b = draw(some_graph()), draw(some_graph())
    how = draw(st.sampled_from(["wires", "wires", "wires", "any", "any", "bad"]))
    mapping: list[list[int]] = []
    if how == "wires":
        ins = list(draw(st.permutations(b["in"])))
        outs = list(draw(st.permutations(a["out"])))
        if b["in"] and a["out"]:
            k = draw(st.integers(1, min(len(ins), len(outs))))
            mapping = [list(p) for p in zip(ins[:k], outs[:k])]
        rest = [v for v in b["nodes"] if v not in dict(map(tuple, mapping))]  # type: ignore[arg-type]
        if rest and draw(st.booleans()):
            fresh = draw(st.integers(60, 80))
            mapping += [[v, fresh + i] for i, v in enumerate(rest) if draw(st.booleans())]
    else:
        vs = [v for v in b["nodes"] if draw(st.booleans())]
        us = list(draw(st.permutations([*a["nodes"], 60, 61, 70])))
        mapping = [list(p) for p in zip(vs, us)]
        # make merged measured nodes agree, mostly
        ma, mb = dict(map(tuple, a["meas"])), dict(map(tuple, b["meas"]))  # type: ignore[arg-type]
        for v, u in mapping:
            if v in mb and u in ma and draw(st.integers(0, 9)) > 0:
                mb[v] = ma[u]
        b["meas"] = [[v, m] for v, m in mb.items()]
    if how == "bad":
        what = draw(st.sampled_from(["key", "value"]))
        if what == "key":
            mapping.append([991, 992])
        elif len(b["nodes"]) > len(mapping) and mapping:
            v = next(v for v in b["nodes"] if v not in dict(map(tuple, mapping)))  # type: ignore[arg-type]
            mapping.append([v, mapping[0][1]])
    for g in (a, b):
        words = gen.CLIFF_WORDS if how == "any" or draw(st.integers(0, 2)) == 0 else DIAGONAL
        g["cliffords"] = [[v, draw(st.sampled_from(words))] for v in g["out"] if draw(st.integers(0, 2)) == 0] if draw(st.booleans()) else []
    return {"a": a, "b": b, "mapping": mapping}


def compose_oracle(case: Any, info: Info) -> None:
    a, b = c21.build(case["a"]), c21.build(case["b"])
    mapping = {v: u for v, u in case["mapping"]}
    da, db = desc(a), desc(b)
    bad = None
    if not set(mapping) <= set(b.graph.nodes):
        bad = "unknown key"
    elif len(case["mapping"]) != len(set(mapping.values())):
        bad = "repeated value"
    else:
        for v, u in mapping.items():
            if v in b.measurements and u in a.measurements and not a.measurements[u].isclose(b.measurements[v]):
                bad = "different measurements"
    arg = dict(mapping)
    if bad:
        info.label(bad)
        info.nt(True)
        check(raises((ValueError, OpenGraphError), lambda: a.compose(b, arg)) is not None, f"composition accepted although: {bad}")
        check(desc(a) == da and desc(b) == db and arg == mapping, "composition changed its arguments")
        return
    og, full = a.compose(b, arg)
    check(desc(a) == da and desc(b) == db and arg == mapping, "composition changed its arguments")
    check(set(full) == set(b.graph.nodes) and all(full[v] == u for v, u in mapping.items()), lambda: f"complete mapping {full} for {mapping}")
    check(len(set(full.values())) == len(full), lambda: f"complete mapping {full} is not injective")
    check(not {full[v] for v in full if v not in mapping} & (set(a.graph.nodes) | set(mapping.values())), lambda: f"a node that is not merged got a used label: {full}")
    merged = set(full.values()) & set(a.graph.nodes)
    info.nt(bool(merged))
    # structure
    nodes = set(a.graph.nodes) | set(full.values())
    edges = {frozenset(e) for e in a.graph.edges} | {frozenset((full[x], full[y])) for x, y in b.graph.edges}
    check(set(og.graph.nodes) == nodes, lambda: f"nodes {sorted(og.graph.nodes)} instead of {sorted(nodes)}")
    check({frozenset(e) for e in og.graph.edges} == edges, lambda: f"edges {sorted(og.graph.edges)} instead of {sorted(map(sorted, edges))}")

    def ports(p1: Any, p2: Any) -> list[int]:
        q2 = [full[v] for v in p2]
        return [u for u in p1 if u not in merged or u in q2] + [u for u in q2 if u not in merged]

    ins, outs = ports(a.input_nodes, b.input_nodes), ports(a.output_nodes, b.output_nodes)
    check(list(og.input_nodes) == ins, lambda: f"inputs {og.input_nodes} instead of {ins}")
    check(list(og.output_nodes) == outs, lambda: f"outputs {og.output_nodes} instead of {outs}")
    back = {u: v for v, u in full.items()}
    for u in nodes - set(outs):
        ma = a.measurements.get(u)
        mb = b.measurements.get(back[u]) if u in back else None
        m = og.measurements[u]
        if ma is not None and mb is not None:
            check(m.isclose(ma), lambda: f"merged measurement {m} instead of {ma}")
            info.label("both measured")
        else:
            src = ma if ma is not None else mb
            assert src is not None
            cl = (b.output_cliffords.get(back[u]) if u in back else None) if ma is not None else a.output_cliffords.get(u)
            want = after(ref.meas_vector(conv.meas_desc(src)), cl)
            check(np.allclose(ref.meas_vector(conv.meas_desc(m)), want, atol=1e-7), lambda: f"measurement {m} of node {u} instead of {src} after {cl}")
            check(isinstance(m, PauliMeasurement) == isinstance(src, PauliMeasurement), lambda: f"measurement {m} made from {src}")
            if cl is not None and cl != Clifford.I:
                info.label("Clifford into measurement")
    for u in outs:
        ca, cb = a.output_cliffords.get(u, Clifford.I), b.output_cliffords.get(back[u], Clifford.I) if u in back else Clifford.I
        got = og.output_cliffords.get(u, Clifford.I)
        check(ref.same_up_to_phase(np.asarray(got.matrix), np.asarray(cb.matrix) @ np.asarray(ca.matrix)), lambda: f"Clifford {got} on output {u} instead of {cb} after {ca}")
    # map
    wires = all(u not in merged or (u in a.output_nodes and v in b.input_nodes) for v, u in full.items())
    ea = {frozenset(e) for e in a.graph.edges}
    shared = any(frozenset((full[x], full[y])) in ea for x, y in b.graph.edges)
    plain = all(np.allclose(np.diag(np.diag(c.matrix)), c.matrix) for v, c in a.output_cliffords.items() if v in merged)
    if wires and not shared and plain:
        info.label("map")
        ta, tb = tensor(case["a"]), tensor(case["b"])
        la = [("o", u) for u in a.output_nodes] + [("i", u) for u in a.input_nodes]
        lb = [("O", full[v]) for v in b.output_nodes] + [("I", full[v]) for v in b.input_nodes]
        con = [u for u in a.output_nodes if u in merged]
        t = np.tensordot(ta, tb, axes=([la.index(("o", u)) for u in con], [lb.index(("I", u)) for u in con]))
        rest = [x for x in la if not (x[0] == "o" and x[1] in con)] + [x for x in lb if not (x[0] == "I" and x[1] in con)]
        want_axes = [("O", u) if ("O", u) in rest else ("o", u) for u in og.output_nodes] + [("i", u) if ("i", u) in rest else ("I", u) for u in og.input_nodes]
        want_t = np.transpose(t, [rest.index(x) for x in want_axes]).ravel()
        got_og = {"nodes": sorted(og.graph.nodes), "edges": [list(e) for e in og.graph.edges], "in": list(og.input_nodes), "out": list(og.output_nodes),
                  "meas": [[v, conv.meas_desc(m)] for v, m in og.measurements.items()]}
        cl = ref.kron_all([np.asarray(og.output_cliffords.get(v, Clifford.I).matrix) for v in og.output_nodes])
        got_t = (cl @ ref.opengraph_map(got_og)).ravel()
        check(np.allclose(np.abs(got_t), np.abs(want_t), atol=1e-7) and ref.same_up_to_phase(got_t.reshape(-1, 1), want_t.reshape(-1, 1), 1e-6), lambda: f"the composed graph defines {np.round(got_t, 4)} instead of {np.round(want_t, 4)}")


def tensor(case: Any) -> np.ndarray:
    m = c21.reference_map(case)
    return m.reshape([2] * (len(case["out"]) + len(case["in"])))


# ---------------------------------------------------------------- equality


CHANGES = ["none", "none", "shuffle", "shuffle", "edge", "node", "in order", "out order", "in", "angle", "tiny angle", "plane", "sign", "kind", "clifford", "turn"]


@st.composite
def pairs(draw: Any) -> dict[str, Any]:
    og = draw(some_graph())
    og["cliffords"] = [[v, draw(st.sampled_from(gen.CLIFF_WORDS))] for v in og["out"] if draw(st.integers(0, 2)) == 0]
    return {"og": og, "change": draw(st.sampled_from(CHANGES)), "k": draw(st.integers(0, 99)), "eps": draw(st.sampled_from([1e-3, 1e-6, 1e-10, 1e-12])),
            "rel": draw(st.sampled_from([1e-9, 0.0, 1e-4])), "abs": draw(st.sampled_from([0.0, 1e-8, 1e-2])), "perm": draw(st.permutations(og["nodes"]))}


def equality_oracle(case: Any, info: Info) -> None:
    og = case["og"]
    new: dict[str, Any] = {**og, "edges": [list(e) for e in og["edges"]], "meas": [list(m) for m in og["meas"]], "in": list(og["in"]), "out": list(og["out"]), "cliffords": list(og["cliffords"])}
    k, what = case["k"], case["change"]
    nodes = og["nodes"]
    if what == "shuffle":
        new["nodes"] = list(case["perm"])
        new["edges"] = [[b, a] for a, b in reversed(new["edges"])]
        new["meas"] = list(reversed(new["meas"]))
    elif what == "edge" and len(nodes) > 1:
        a, b = nodes[k % len(nodes)], nodes[(k // len(nodes) + 1 + k) % len(nodes)]
        if a != b:
            e = sorted([a, b])
            new["edges"] = [x for x in new["edges"] if sorted(x) != e] if e in [sorted(x) for x in new["edges"]] else [*new["edges"], e]
    elif what == "node":
        new["nodes"] = [*nodes, 555]
        new["meas"].append([555, ["B", "XY", 0.3]])
    elif what == "in order":
        new["in"].reverse()
    elif what == "out order":
        new["out"].reverse()
    elif what == "in" and nodes:
        v = nodes[k % len(nodes)]
        new["in"] = [x for x in new["in"] if x != v] if v in new["in"] else [*new["in"], v]
    elif what == "clifford" and og["out"]:
        v = og["out"][k % len(og["out"])]
        d = dict(map(tuple, new["cliffords"]))  # type: ignore[arg-type]
        d[v] = gen.CLIFF_WORDS[(k + 1) % 24]
        new["cliffords"] = [[x, w] for x, w in d.items()]
    elif new["meas"]:
        i = k % len(new["meas"])
        v, m = new["meas"][i]
        if m[0] == "B":
            if what == "angle":
                new["meas"][i] = [v, ["B", m[1], m[2] + 0.37]]
            elif what == "tiny angle":
                new["meas"][i] = [v, ["B", m[1], m[2] + case["eps"]]]
            elif what == "turn":
                new["meas"][i] = [v, ["B", m[1], -m[2]]]
            elif what == "plane":
                new["meas"][i] = [v, ["B", gen.PLANES[(gen.PLANES.index(m[1]) + 1) % 3], m[2]]]
            elif what == "kind":
                new["meas"][i] = [v, ["P", m[1][0], 1]]
        elif what in ("sign", "kind"):
            new["meas"][i] = [v, ["P", m[1], -m[2]]] if what == "sign" else [v, ["B", {"X": "XY", "Y": "YZ", "Z": "XZ"}[m[1]], 0.0]]
    a, b = c21.build(og), c21.build(new)
    info.label(what)
    info.nt(bool(nodes))

    def key(d: Any) -> Any:
        return (set(d["nodes"]), {frozenset(e) for e in d["edges"]}, d["in"], d["out"])

    cl = [{v: c for v, c in x.output_cliffords.items()} for x in (a, b)]
    structural = key(og) == key(new) and cl[0] == cl[1]
    mo, mn = dict(map(tuple, og["meas"])), dict(map(tuple, new["meas"]))  # type: ignore[arg-type]

    def near(x: Any, y: Any) -> bool:
        if x[:2] != y[:2]:
            return False
        return x[2] == y[2] if x[0] == "P" else math.isclose(x[2], y[2], rel_tol=case["rel"], abs_tol=case["abs"])

    close = structural and all(near(mo[v], mn[v]) for v in mo)
    for x, y in ((a, b), (b, a)):
        check(x.is_equal_structurally(y) is structural, lambda: f"structural equality of graphs that differ by '{what}' is {not structural}")
        check(bool(x.isclose(y, rel_tol=case["rel"], abs_tol=case["abs"])) is close, lambda: f"closeness of graphs that differ by '{what}' is {not close}: {mo} {mn}")
    check(a.isclose(a) and a.is_equal_structurally(a), "a graph is not equal to itself")
    check(a.is_equal_structurally(a.to_bloch()), "to_bloch changed the structure")


# ---------------------------------------------------------------- neighbourhoods and measurement mappings


@st.composite
def queries(draw: Any) -> dict[str, Any]:
    og = draw(gen.open_graphs(max_nodes=7, kinds="mixed", min_nodes=0)) if draw(st.booleans()) else draw(some_graph(7))
    meas = []
    for v, m in og["meas"]:
        if m[0] == "B" and draw(st.integers(0, 2)) == 0:
            m = ["B", m[1], draw(st.integers(-6, 6)) / 2 + draw(st.sampled_from([0.0, 1e-10, -1e-10, 1e-4, 0.25]))]
        meas.append([v, m])
    og["meas"] = meas
    og["cliffords"] = [[v, draw(st.sampled_from(gen.CLIFF_WORDS))] for v in og["out"] if draw(st.integers(0, 3)) == 0]
    return {"og": og, "sets": [draw(st.lists(st.sampled_from(og["nodes"]), unique=True)) if og["nodes"] else [] for _ in range(3)], "tol": draw(st.sampled_from([0.0, 1e-8, 1e-3]))}


def query_oracle(case: Any, info: Info) -> None:
    og = c21.build(case["og"])
    before = desc(og)
    adj: dict[int, set[int]] = {v: set() for v in case["og"]["nodes"]}
    for a, b in case["og"]["edges"]:
        adj[a].add(b)
        adj[b].add(a)
    for s in case["sets"]:
        for arg in (s, set(s), tuple(s), frozenset(s)):
            n, o = og.neighbors(arg), og.odd_neighbors(arg)
            check(set(n) == {v for v in adj if adj[v] & set(s)}, lambda: f"neighbourhood {n} of {s}")
            check(set(o) == {v for v in adj if len(adj[v] & set(s)) % 2}, lambda: f"odd neighbourhood {o} of {s}")
        if len(s) > 1:
            info.nt()
    seen: list[int] = []
    og2 = og.map(lambda m: (m, seen.append(0))[0])
    check(len(seen) == len(og.measurements) and desc(og2) == before, "map with the identity changed the graph")
    planes = og.map(lambda m: m.to_plane_or_axis())
    check(planes.is_equal_structurally(og) and all(planes.measurements[v] == m.to_plane_or_axis() for v, m in og.measurements.items()), "map to labels")
    bl = og.to_bloch()
    check(bl.is_equal_structurally(og), "to_bloch changed the structure")
    for v, m in og.measurements.items():
        x = bl.measurements[v]
        check(isinstance(x, BlochMeasurement) and np.allclose(ref.meas_vector(conv.meas_desc(x)), ref.meas_vector(conv.meas_desc(m)), atol=1e-9), lambda: f"{m} became {x}")
        if isinstance(m, BlochMeasurement):
            check(x == m, lambda: f"{m} became {x}")
    paulis = any(m[0] == "P" for _, m in case["og"]["meas"])
    err = raises(TypeError, og.downcast_bloch)
    check((err is not None) is paulis, lambda: f"downcast_bloch with Pauli measurements: {err!r}")
    if not paulis:
        check(desc(og.downcast_bloch()) == before, "downcast_bloch changed the graph")
    tol = case["tol"]
    inf = og.infer_pauli_measurements(abs_tol=tol)
    check(inf.is_equal_structurally(og), "inferring Pauli measurements changed the structure")
    for v, m in case["og"]["meas"]:
        x = inf.measurements[v]
        d = conv.meas_desc(x)
        dist = abs(m[2] * 2 - round(m[2] * 2)) / 2 if m[0] == "B" else 0.0
        lim = max(tol, 1e-9 * abs(m[2]) if m[0] == "B" else 0)
        if m[0] == "P" or dist == 0:
            check(isinstance(x, PauliMeasurement), lambda: f"{m} was not recognised: {x}")
        elif dist > 4 * lim + 1e-9:
            check(isinstance(x, BlochMeasurement) and d == ["B", m[1], m[2]], lambda: f"{m} became {x}")
        elif dist < lim / 4:
            check(isinstance(x, PauliMeasurement), lambda: f"{m} was not recognised with tolerance {tol}: {x}")
        if isinstance(x, PauliMeasurement):
            check(np.allclose(ref.meas_vector(d), ref.meas_vector(m), atol=max(1e-8, 10 * lim)), lambda: f"{m} became {x}")
            info.label("inferred" if m[0] == "B" else "Pauli")
    check(desc(og) == before, "a query changed the graph")


# ---------------------------------------------------------------- constructor


@st.composite
def raw_graphs(draw: Any) -> dict[str, Any]:
    og = draw(some_graph(5))
    og = {**og, "cliffords": [[v, "H"] for v in og["out"] if draw(st.integers(0, 2)) == 0]}
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        what = draw(st.sampled_from(["meas", "unmeas", "in", "out", "dup in", "dup out", "clifford", "meas out", "foreign clifford"]))
        if what == "meas":
            og["meas"] = [*og["meas"], [333, ["B", "XY", 0.1]]]
        elif what == "unmeas" and og["meas"]:
            og["meas"] = og["meas"][1:]
        elif what == "in":
            og["in"] = [*og["in"], 334]
        elif what == "out":
            og["out"] = [*og["out"], 335]
        elif what == "dup in" and og["in"]:
            og["in"] = [*og["in"], og["in"][0]]
        elif what == "dup out" and og["out"]:
            og["out"] = [*og["out"], og["out"][0]]
        elif what == "clifford" and og["meas"]:
            og["cliffords"] = [*og["cliffords"], [og["meas"][0][0], "S"]]
        elif what == "foreign clifford":
            og["cliffords"] = [*og["cliffords"], [336, "S"]]
        elif what == "meas out" and og["out"]:
            og["meas"] = [*og["meas"], [og["out"][0], ["B", "XY", 0.1]]]
    return og


def constructor_oracle(case: Any, info: Info) -> None:
    nodes, ins, outs, ms = set(case["nodes"]), case["in"], case["out"], [v for v, _ in case["meas"]]
    ok = set(ins) <= nodes and set(outs) <= nodes and set(ms) == nodes - set(outs) and len(set(ins)) == len(ins) and len(set(outs)) == len(outs) and {v for v, _ in case["cliffords"]} <= set(outs)
    info.nt(bool(nodes))
    info.label("valid" if ok else "invalid")
    g: nx.Graph[int] = nx.Graph()
    g.add_nodes_from(case["nodes"])
    g.add_edges_from(map(tuple, case["edges"]))

    def make() -> Any:
        return OpenGraph(g, ins, outs, {v: conv.measurement(m) for v, m in case["meas"]}, {v: conv.clifford(w) for v, w in case["cliffords"]})

    if ok:
        make()
    else:
        check(raises(OpenGraphError, make) is not None, "inconsistent graph accepted")


SUBS = [
    Sub("compose", composed, compose_oracle, 3000, 60000, shards=5, rule="some nodes are merged, or the mapping is invalid"),
    Sub("equality", pairs, equality_oracle, 2500, 50000, shards=3, rule="at least one node"),
    Sub("queries", queries, query_oracle, 2000, 40000, shards=2, rule="a neighbourhood of at least two nodes is asked for"),
    Sub("constructor", raw_graphs, constructor_oracle, 1000, 20000, shards=1, rule="at least one node"),
]
