"""C28: operation histories on the graph-state simulator, checked step by step against a dense state.

Generated histories (construction in every form, nodes, edges, H, S, Z, local decorations, local complementation,
equivalent graphs, local Cliffords, measurements with both choices, copies) run on GraphState and on a dense register;
after every step both the described state (formula of the documentation evaluated independently) and to_statevector must
equal the register up to phase, and measurement results must be possible and follow the choice whenever it is possible.
Histories on 8-40 nodes are followed on a tableau of stabilizers instead.
"""
from __future__ import annotations

import random
from typing import Any

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from graphix.graphsim import GraphState
from vh import conv, gen, ref, stab
from vh.core import Info, Sub, check
from vh.util import raises

H, S, Z = ref.BASIS1["H"], np.diag([1, 1j]), np.diag([1.0 + 0j, -1])
BASIS = {"X": ("PLUS", "MINUS"), "Y": ("PLUS_I", "MINUS_I"), "Z": ("ZERO", "ONE")}
FLAGS = ("sign", "loop", "hollow")


def register(case: Any) -> Any:
    """A dense register, or a tableau of stabilizers for many qubits."""
    if "n" in case:
        return stab.Stab()
    r = ref.Reg()
    r.t = np.ones((1,), dtype=complex)
    return r


def described_stab(g: GraphState) -> stab.Stab:
    return stab.graph_state(g.nodes, g.edges, [(v, m) for v in g.nodes for flag, m in zip(FLAGS, (Z, S, H)) if g.nodes[v][flag]])


def described(g: GraphState) -> tuple[list[int], np.ndarray]:
    """State described by the decorated graph: H on hollow, S on looped, Z on negative nodes, CZ on edges of |+...+>."""
    nodes = list(g.nodes)
    r = ref.Reg()
    r.t = np.ones((1,), dtype=complex)
    for v in nodes:
        r.add(v, ref.STATES["PLUS"])
    for a, b in g.edges:
        r.cz(a, b)
    for v in nodes:
        for flag, m in zip(FLAGS, (Z, S, H)):
            if g.nodes[v][flag]:
                r.op1(v, m)
    return nodes, r.matrix(nodes)[:, 0]


def compare(g: GraphState, r: ref.Reg, what: str) -> None:
    check(sorted(g.nodes) == sorted(r.nodes), lambda: f"{what}: nodes {sorted(g.nodes)} instead of {sorted(r.nodes)}")
    for v in g.nodes:
        check(all(f in g.nodes[v] and g.nodes[v][f] in (True, False) for f in FLAGS), lambda: f"{what}: node {v} has the attributes {dict(g.nodes[v])}")  # noqa: B023
    if isinstance(r, stab.Stab):
        check(described_stab(g).same(r), lambda: f"{what}: the graph with edges {sorted(g.edges)} and attributes { {v: dict(g.nodes[v]) for v in g} } describes another state")
        return
    nodes, psi = described(g)
    want = r.matrix(nodes)[:, 0]
    want = want / np.linalg.norm(want)
    check(ref.same_up_to_phase(psi, want, 1e-7), lambda: f"{what}: the graph with edges {sorted(g.edges)} and attributes { {v: dict(g.nodes[v]) for v in g} } describes another state")
    sv = np.asarray(g.to_statevector().flatten()).reshape(-1)
    check(ref.same_up_to_phase(sv, want, 1e-7), lambda: f"{what}: to_statevector of edges {sorted(g.edges)} and attributes { {v: dict(g.nodes[v]) for v in g} } is another state")


OPS = ["node", "nodes", "edge", "edges", "newedge", "unedge", "h", "h", "s", "s", "s", "z", "flip_fill", "flip_sign", "advance", "lc", "e1", "e2", "e2", "fill", "vops", "measure", "measure", "copy", "again"]


@st.composite
def histories(draw: Any, max_nodes: int = 6, max_ops: int = 14) -> dict[str, Any]:
    nodes = draw(gen.labels(max_nodes))
    n0 = draw(st.integers(0, max_nodes))
    flags = st.lists(st.sampled_from(FLAGS), max_size=3, unique=True).map(sorted)
    edges = [[nodes[i], nodes[j]] if draw(st.booleans()) else [nodes[j], nodes[i]] for i in range(n0) for j in range(i) if draw(st.booleans())]
    idx = st.integers(0, 30)
    ops = [[draw(st.sampled_from(OPS)), draw(idx), draw(idx), draw(flags), draw(st.integers(0, 23)), draw(st.integers(0, 1)), draw(st.sampled_from("XYZ"))] for _ in range(draw(st.integers(0, max_ops)))]
    return {"nodes": nodes, "n0": n0, "edges": edges, "how": draw(st.sampled_from(["init", "init", "edges only", "attributes", "networkx", "add", "vops"])), "flags": [draw(flags) for _ in range(n0)], "vops": [draw(st.integers(0, 23)) for _ in range(n0)], "ops": ops}


def decorate(r: ref.Reg, v: int, flags: list[str]) -> None:
    for flag, m in zip(FLAGS, (Z, S, H)):
        if flag in flags:
            r.op1(v, m)


def attrs(flags: list[str]) -> dict[str, bool]:
    return {f: f in flags for f in FLAGS}


def cliff(k: int) -> tuple[Any, np.ndarray]:
    c = conv.ALL_CLIFFORDS[k] if hasattr(conv, "ALL_CLIFFORDS") else list(conv.Clifford)[k]
    return c, np.asarray(c.matrix)


def start(case: Any, info: Info) -> tuple[GraphState, ref.Reg]:
    nodes = case["nodes"][: case["n0"]]
    edges = [tuple(e) for e in case["edges"]]
    r = register(case)
    for v in nodes:
        r.add(v, ref.STATES["PLUS"])
    for a, b in edges:
        r.cz(a, b)
    how = case["how"]
    info.label("start " + how)
    if how == "init":
        g = GraphState(nodes=iter(nodes), edges=iter(edges))
    elif how == "edges only":
        g = GraphState(edges=edges)
        g.add_nodes_from([v for v in nodes if v not in g])
    elif how == "attributes":
        g = GraphState()
        g.add_nodes_from([(v, attrs(f)) for v, f in zip(nodes, case["flags"])])
        g.add_edges_from(edges)
        for v, f in zip(nodes, case["flags"]):
            decorate(r, v, f)
    elif how == "networkx":
        plain: Any = nx.Graph()
        plain.add_nodes_from(nodes)
        plain.add_edges_from(edges)
        g = GraphState(nodes=plain.nodes, edges=plain.edges)
    elif how == "add":
        g = GraphState()
        for v, f in zip(nodes, case["flags"]):
            g.add_node(v, **{x: True for x in f})
        for e in edges:
            g.add_edge(*e)
        for v, f in zip(nodes, case["flags"]):
            decorate(r, v, f)
    else:
        cs = {v: cliff(k) for v, k in zip(nodes, case["vops"])}
        g = GraphState(nodes=nodes, edges=edges, vops={v: c for v, (c, _) in cs.items()})
        for v, (_, m) in cs.items():
            r.op1(v, m)
    return g, r


def grown(case: Any) -> dict[str, Any]:
    """A history on many nodes, from a seed."""
    r = random.Random(case["seed"])
    n = case["n"]
    nodes = r.sample(range(3 * n), n) if r.random() < 0.5 else list(range(n))
    n0 = r.randint(n // 2, n)
    shape = r.choice(["sparse", "grid", "dense", "ring"])
    pairs = {"sparse": lambda: [(i, j) for i in range(n0) for j in range(i) if r.random() < 2.5 / n0], "dense": lambda: [(i, j) for i in range(n0) for j in range(i) if r.random() < 0.5],
             "grid": lambda: [(i, i + d) for i in range(n0) for d in (1, 6) if i + d < n0 and (d > 1 or (i + 1) % 6)], "ring": lambda: [(i, (i + 1) % n0) for i in range(n0)] if n0 > 2 else []}[shape]()
    edges = [[nodes[i], nodes[j]] for i, j in pairs]
    r.shuffle(edges)
    flags = lambda: sorted(f for f in FLAGS if r.random() < 0.4)  # noqa: E731
    names = [x for x in OPS for _ in range(3 if x in ("measure", "e2", "vops", "lc") else 1)]
    ops = [[r.choice(names), r.randrange(1000), r.randrange(1000), flags(), r.randrange(24), r.randrange(2), r.choice("XYZ")] for _ in range(case["ops"])]
    how = r.choice(["init", "edges only", "attributes", "networkx", "add", "vops"])
    return {**case, "nodes": nodes, "n0": n0, "edges": edges, "how": how, "flags": [flags() for _ in range(n0)], "vops": [r.randrange(24) for _ in range(n0)], "ops": ops}


def large() -> Any:
    return st.fixed_dictionaries({"seed": st.integers(0, 2**32), "n": st.integers(8, 40), "ops": st.integers(1, 50)})


def oracle(case: Any, info: Info) -> None:
    if "n" in case:
        case = grown(case)
    g, r = start(case, info)
    compare(g, r, "start")
    free = list(case["nodes"][case["n0"] :])
    done = 0
    for name, i, j, flags, k, bit, axis in case["ops"]:
        live = sorted(g.nodes)
        v = live[i % len(live)] if live else None
        others = [x for x in live if x != v]
        w = others[j % len(others)] if others else None
        what = f"{name} on {v}"
        if name == "node" and free:
            x = free.pop(0)
            if bit:
                g.add_node(x, **{f: True for f in flags})
            else:
                g.add_nodes_from([(x, attrs(flags))])
            r.add(x, ref.STATES["PLUS"])
            decorate(r, x, flags)
        elif name == "nodes" and len(free) > 1:
            xs = [free.pop(0), free.pop(0)]
            g.add_nodes_from(iter(xs), **({f: True for f in flags} if bit else {}))
            for x in xs:
                r.add(x, ref.STATES["PLUS"])
                decorate(r, x, flags if bit else [])
        elif name == "again" and v is not None:
            # adding a node that is already there changes nothing
            g.add_node(v) if bit else g.add_nodes_from([v])
        elif name in ("edge", "edges", "unedge") and w is not None:
            has = g.has_edge(v, w)
            check(has == ((v, w) in g.edges), "has_edge and edges differ")
            if name == "unedge":
                if not has:
                    continue
                g.remove_edge(v, w)
            elif name == "edge":
                g.add_edge(v, w)
            else:
                g.add_edges_from([(v, w), (w, v)])
            if has == (name == "unedge"):
                hollow = [x for x in (v, w) if g.nodes[x]["hollow"]]
                for x in hollow:
                    r.op1(x, H)
                r.cz(v, w)
                for x in hollow:
                    r.op1(x, H)
        elif name == "newedge" and v is not None and free:
            x = free.pop(0)
            g.add_edge(v, x) if bit else g.add_edges_from([(x, v)])
            r.add(x, ref.STATES["PLUS"])
            if g.nodes[v]["hollow"]:
                r.op1(v, H)
            r.cz(v, x)
            if g.nodes[v]["hollow"]:
                r.op1(v, H)
        elif name in ("h", "s", "z") and v is not None:
            getattr(g, name)(v)
            r.op1(v, {"h": H, "s": S, "z": Z}[name])
        elif name == "flip_fill" and v is not None:
            g.flip_fill(v)
            r.op1(v, H)
        elif name in ("flip_sign", "advance") and v is not None:
            hollow = g.nodes[v]["hollow"]
            getattr(g, name)(v)
            m = Z if name == "flip_sign" else S
            r.op1(v, H @ m @ H if hollow else m)
        elif name == "lc" and v is not None:
            edges = {frozenset(e) for e in g.edges}
            nb = [x for x in live if frozenset((x, v)) in edges]
            for a in nb:
                for b in nb:
                    if a < b:
                        edges ^= {frozenset((a, b))}
            flagged = {x: dict(g.nodes[x]) for x in live}
            g.local_complement(v)
            check({frozenset(e) for e in g.edges} == edges, lambda: f"local complementation at {v}: {sorted(g.edges)} instead of {sorted(map(sorted, edges))}")  # noqa: B023
            check({x: dict(g.nodes[x]) for x in g.nodes} == flagged, "local complementation changed the decorations")
            if isinstance(r, stab.Stab):
                r = described_stab(g)
            else:
                nodes, psi = described(g)
                r = ref.Reg.from_vec(nodes, psi)
        elif name == "e1" and v is not None:
            loop = g.nodes[v]["loop"]
            if not loop:
                check(raises(ValueError, lambda: g.equivalent_graph_e1(v)) is not None, "E1 accepted at a node without loop")  # noqa: B023
                continue
            g.equivalent_graph_e1(v)
        elif name == "e2" and w is not None:
            nb = sorted(g.neighbors(v))
            w = nb[j % len(nb)] if nb and j % 4 else w
            what = f"e2 on {v}, {w}"
            if not g.has_edge(v, w) or g.nodes[v]["loop"] or g.nodes[w]["loop"]:
                check(raises(ValueError, lambda: g.equivalent_graph_e2(v, w)) is not None, "E2 accepted at nodes that are not connected or have loops")  # noqa: B023
                continue
            g.equivalent_graph_e2(v, w)
        elif name == "fill" and v is not None:
            alone = not list(g.neighbors(v))
            hollow, loop = g.nodes[v]["hollow"], g.nodes[v]["loop"]
            code = g.equivalent_fill_node(v)
            want = 2 if alone and not hollow else 1 if alone and hollow and not loop else 0
            check(code == want, lambda: f"equivalent_fill_node returned {code} instead of {want}")  # noqa: B023
            check(code == 1 or not g.nodes[v]["hollow"], "equivalent_fill_node left the node hollow")
        elif name == "vops" and v is not None:
            c, m = cliff(k)
            vops = {v: c}
            r.op1(v, m)
            if w is not None and bit:
                c2, m2 = cliff((k * 7 + j) % 24)
                vops[w] = c2
                r.op1(w, m2)
            g.apply_vops(vops)
        elif name == "measure" and v is not None:
            total = r.norm2()
            probs = []
            for b in (0, 1):
                r0 = r.copy()
                r0.bra(v, ref.STATES[BASIS[axis][b]])
                probs.append(r0.norm2() / total)
            got = getattr(g, f"measure_{axis.lower()}")(v, bit) if j % 2 else getattr(g, f"measure_{axis.lower()}")(v, choice=bit)
            what = f"measure_{axis.lower()}({v}, choice={bit}) -> {got}"
            check(got in (0, 1), what)
            check(probs[got] > 1e-6, lambda: f"{what}: this outcome is impossible")  # noqa: B023
            if probs[bit] > 1e-6:
                check(got == bit, lambda: f"{what}: outcome {bit} has probability {probs[bit]:.2f}")  # noqa: B023
                info.label("choice followed")
            else:
                info.label("choice impossible")
            r.bra(v, ref.STATES[BASIS[axis][got]])
        elif name == "copy":
            other = g.copy()
            check(isinstance(other, GraphState), "copy of a graph state")
            if v is not None:
                other.h(v)
                other.s(v)
                other.measure_z(v)
                compare(g, r, f"{name}, operations on the copy")
            else:
                other.add_node(1)
            g2 = g.copy()
            g.clear()
            g = g2
        else:
            continue
        compare(g, r, what)
        done += 1
        info.label(name)
    vops = g.extract_vops()
    check(sorted(vops) == sorted(g.nodes), "extract_vops keys")
    r2 = register(case)
    for v in g.nodes:
        r2.add(v, ref.STATES["PLUS"])
    for a, b in g.edges:
        r2.cz(a, b)
    for v, c in vops.items():
        r2.op1(v, np.asarray(c.matrix))
    nodes = list(g.nodes)
    check(r2.same(r) if isinstance(r, stab.Stab) else ref.same_up_to_phase(r2.matrix(nodes)[:, 0], r.matrix(nodes)[:, 0] / np.sqrt(r.norm2()), 1e-7), "extract_vops: the graph with these local Cliffords is another state")
    plain = GraphState(nodes=nodes, edges=list(g.edges), vops=vops)
    compare(plain, r, "graph rebuilt from extract_vops")
    check(sorted(g.isolated_nodes()) == sorted(v for v in nodes if not list(g.neighbors(v))), "isolated_nodes")
    info.nt(done >= 3 and len(case["edges"]) > 0)


def rejections_oracle(case: Any, info: Info) -> None:
    info.nt()
    g = GraphState(nodes=[0, 1], edges=[(0, 1)])
    what = case["what"]
    fns = {"x": lambda: g.measure_x(0, choice=2), "y": lambda: g.measure_y(0, choice=-1), "z": lambda: g.measure_z(0, choice=2), "attribute": lambda: g.add_nodes_from([(2, {"sign": True, "colour": True})]),
           "e1": lambda: g.equivalent_graph_e1(0), "e2 same side": lambda: GraphState(nodes=[0, 1, 2], edges=[(0, 1)]).equivalent_graph_e2(0, 2)}
    check(raises(ValueError, fns[what]) is not None, f"{what}: not rejected")
    if what != "attribute":
        r = ref.Reg()
        r.t = np.ones((1,), dtype=complex)
        r.add(0, ref.STATES["PLUS"])
        r.add(1, ref.STATES["PLUS"])
        r.cz(0, 1)
        compare(g, r, f"after the rejected request {what}")


REJECTIONS = ["x", "y", "z", "attribute", "e1", "e2 same side"]

SUBS = [
    Sub("histories", histories, oracle, 8000, 160000, shards=8, rule="at least 3 operations on a graph with at least one edge"),
    Sub("long", lambda: histories(max_nodes=8, max_ops=40), oracle, 1000, 20000, shards=8, rule="at least 3 operations on a graph with at least one edge"),
    Sub("large", large, oracle, 500, 10000, shards=8, rule="at least 3 operations on a graph with at least one edge (8-40 nodes)"),
    Sub("rejections", lambda: st.sampled_from([{"what": w} for w in REJECTIONS]), rejections_oracle, 6, 6, shards=1, enumerate=lambda tier: [{"what": w} for w in REJECTIONS]),
]
