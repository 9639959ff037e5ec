"""C34: decompositions into fusion clusters checked against the graph: exact edge partition, node cover, shapes, limits.

All graphs up to five nodes are enumerated with small size limits; larger random graphs (trees, cycles, cliques,
grids, random densities, arbitrary node labels and orders) are generated.  Hangs are reported through a CPU limit.
"""
from __future__ import annotations

import itertools
import math
from collections.abc import Iterator
from random import Random
from typing import Any

import networkx as nx
from hypothesis import strategies as st

from graphix.extraction import ResourceGraph, ResourceType, create_resource_graph, fusion_nodes, graph_to_fusion_network
from graphix.graphsim import GraphState
from vh.core import Info, Sub, check
from vh.util import raises


def is_star(g: Any) -> bool:
    """One node joined to all others and no other edge (including one or two nodes)."""
    n = g.number_of_nodes()
    return n >= 1 and g.number_of_edges() == n - 1 and (n <= 2 or max(d for _, d in g.degree()) == n - 1)


def is_path(g: Any) -> bool:
    n = g.number_of_nodes()
    return n >= 2 and g.number_of_edges() == n - 1 and nx.is_connected(g) and max(d for _, d in g.degree()) <= 2


def lim(x: Any) -> float:
    return math.inf if x is None else x


def oracle(case: Any, info: Info) -> None:
    g: Any = GraphState() if case.get("gs") else nx.Graph()
    g.add_nodes_from(case["nodes"])
    g.add_edges_from([tuple(e) for e in case["edges"]])
    frozen = (list(g.nodes), [sorted(e) for e in g.edges], {n: sorted(g.neighbors(n)) for n in g.nodes}, repr(dict(g.nodes(data=True))))
    kw = {k: v for k, v in (("max_ghz", case["ghz"]), ("max_lin", case["lin"])) if v is not None}
    res = graph_to_fusion_network(g, **kw)
    now = (list(g.nodes), [sorted(e) for e in g.edges], {n: sorted(g.neighbors(n)) for n in g.nodes}, repr(dict(g.nodes(data=True))))
    check(now == frozen, "the graph was modified")
    edges: list[frozenset[int]] = []
    nodes: set[int] = set()
    for c in res:
        check(isinstance(c, ResourceGraph), "class of the clusters")
        n = c.graph.number_of_nodes()
        if c.cltype == ResourceType.GHZ:
            check(is_star(c.graph), lambda: f"GHZ cluster with edges {list(c.graph.edges)}")  # noqa: B023
            check(n <= max(lim(case["ghz"]), 1), lambda: f"GHZ cluster of size {n} with max_ghz={case['ghz']}")  # noqa: B023
        else:
            check(c.cltype == ResourceType.LINEAR, lambda: f"cluster of type {c.cltype}")  # noqa: B023
            check(is_path(c.graph), lambda: f"linear cluster with edges {list(c.graph.edges)}")  # noqa: B023
            check(n <= lim(case["lin"]), lambda: f"linear cluster of size {n} with max_lin={case['lin']}")  # noqa: B023
        check(n > 1 or g.degree(next(iter(c.graph.nodes))) == 0, "a cluster of one node that is not isolated")
        edges += [frozenset(e) for e in c.graph.edges]
        nodes |= set(c.graph.nodes)
    want = [frozenset(e) for e in g.edges]
    check(len(edges) == len(set(edges)), lambda: f"edges covered several times: {sorted(map(sorted, edges))}")
    check(set(edges) == set(want), lambda: f"clusters cover {sorted(map(sorted, edges))} instead of {sorted(map(sorted, want))}")
    check(nodes == set(g.nodes), lambda: f"clusters contain {sorted(nodes)}")
    for i, c in enumerate(res):
        for j, d in enumerate(res):
            fused = fusion_nodes(c, d)
            wanted = set() if i == j else set(c.graph.nodes) & set(d.graph.nodes)
            check(len(fused) == len(set(fused)) and set(fused) == wanted, lambda: f"fusion_nodes gives {fused} instead of {wanted}")  # noqa: B023
            check((c == d) == (i == j), "two clusters are equal")
    # fuse the clusters one after the other on the reported nodes
    if res:
        total: Any = nx.Graph()
        for i, c in enumerate(res):
            shared = {n for d in res[:i] for n in fusion_nodes(d, c)}
            check(shared == set(c.graph.nodes) & set(total.nodes), "nodes to fuse")
            total = nx.compose(total, c.graph)
        check(set(total.nodes) == set(g.nodes) and {frozenset(e) for e in total.edges} == set(want), "fusing the clusters does not give the graph")
    info.nt(len(want) >= 3)
    info.label(f"clusters{min(len(res), 6)}", "limited" if case["ghz"] or case["lin"] else "unlimited", *{str(c.cltype) for c in res})


@st.composite
def graphs(draw: Any, lo: int = 0, hi: int = 11) -> dict[str, Any]:
    kind = draw(st.sampled_from(["random", "random", "random", "clique", "cycle", "grid", "tree", "union", "bipartite", "wheel"]))
    n = draw(st.integers(lo, hi))
    if kind == "clique":
        e = list(itertools.combinations(range(n), 2))
    elif kind == "cycle":
        e = [(i, (i + 1) % n) for i in range(n)] if n >= 3 else []
    elif kind == "grid":
        w = draw(st.integers(1, 4 if hi < 12 else 7))
        e = [(i, i + 1) for i in range(n) if (i + 1) % w and i + 1 < n] + [(i, i + w) for i in range(n) if i + w < n]
    elif kind == "tree":
        e = [(i, draw(st.integers(0, i - 1))) for i in range(1, n)]
    elif kind == "bipartite":
        k = draw(st.integers(0, n))
        e = [(i, j) for i in range(k) for j in range(k, n)]
    elif kind == "wheel":
        e = [(0, i) for i in range(1, n)] + ([(i, i % (n - 1) + 1) for i in range(1, n)] if n >= 4 else [])
    else:
        d = draw(st.sampled_from([1, 2, 3, 5]))
        if hi > 11:
            r = Random(draw(st.integers(0, 2**32 - 1)))
            e = [p for p in itertools.combinations(range(n), 2) if r.randrange(5 * n) < 4 * d]
        else:
            e = [p for p in itertools.combinations(range(n), 2) if draw(st.integers(0, 5)) < d]
        if kind == "union":
            e = [(i, j) for i, j in e if (i < n // 2) == (j < n // 2)]
    e = sorted({tuple(sorted(p)) for p in e})
    drop = draw(st.lists(st.integers(0, max(len(e) - 1, 0)), max_size=3))
    e = [p for i, p in enumerate(e) if i not in drop]
    names = draw(st.one_of(st.just(list(range(n))), st.permutations(list(range(n))), st.lists(st.integers(-50, 200), min_size=n, max_size=n, unique=True)))
    order = draw(st.permutations(names))
    e = [[names[a], names[b]] if draw(st.booleans()) else [names[b], names[a]] for a, b in e]
    size = st.one_of(st.none(), st.integers(2, 6), st.integers(2, 4))
    return {"nodes": order, "edges": draw(st.permutations(e)), "ghz": draw(size), "lin": draw(size), "gs": draw(st.integers(0, 3)) == 0}


def small(tier: str) -> Iterator[dict[str, Any]]:
    """All labelled graphs up to 4 (quick) or 5 (thorough) nodes with the limits 2, 3, 4 and none."""
    for n in range(5 if tier == "quick" else 6):
        pairs = list(itertools.combinations(range(n), 2))
        for bits in range(2 ** len(pairs)):
            e = [list(p) for i, p in enumerate(pairs) if bits >> i & 1]
            for ghz, lin in itertools.product([None, 2, 3, 4], [None, 2, 3, 4]):
                yield {"nodes": list(range(n)), "edges": e, "ghz": ghz, "lin": lin}


@st.composite
def cluster_cases(draw: Any) -> dict[str, Any]:
    ids = draw(st.lists(st.integers(-9, 30), min_size=1, max_size=7, unique=True))
    root = draw(st.one_of(st.none(), st.sampled_from(ids)))
    other = draw(st.lists(st.integers(-9, 30), min_size=1, max_size=7, unique=True))
    return {"ids": ids, "root": root, "other": other, "kind": draw(st.booleans())}


def cluster_oracle(case: Any, info: Info) -> None:
    ids, root = case["ids"], case["root"]
    c = create_resource_graph(list(ids), root=root) if root is not None else create_resource_graph(list(ids))
    want = {frozenset((root, i)) for i in ids if i != root} if root is not None else {frozenset(p) for p in itertools.pairwise(ids)}
    check(c.cltype == (ResourceType.LINEAR if root is None else ResourceType.GHZ), "type of the cluster")
    check(set(c.graph.nodes) == set(ids) and {frozenset(e) for e in c.graph.edges} == want, lambda: f"cluster {list(c.graph.edges)} from {ids}, root {root}")
    check(str(c.cltype) in ("GHZ", "LINEAR"), "name of the type")
    d = create_resource_graph(list(case["other"]), root=case["other"][0] if case["kind"] else None)
    same = c.cltype == d.cltype and set(ids) == set(case["other"]) and want == {frozenset(e) for e in d.graph.edges}
    check((c == d) == same and (d == c) == same, "equality of clusters")
    f = fusion_nodes(c, d)
    check(len(f) == len(set(f)) and set(f) == (set() if same else set(ids) & set(case["other"])), lambda: f"fusion_nodes gives {f}")
    check(raises(TypeError, lambda: fusion_nodes(c, [1])) is not None and raises(TypeError, lambda: c == 3) is not None, "other objects are accepted")  # type: ignore[arg-type]
    info.nt(len(ids) > 2)


SUBS = [
    Sub("graphs", graphs, oracle, 4000, 100000, shards=8, rule="at least three edges"),
    Sub("small graphs", lambda: st.sampled_from(list(small("quick"))), oracle, 1300, 18000, shards=4, rule="at least three edges", enumerate=small),
    Sub("clusters", cluster_cases, cluster_oracle, 1000, 20000, shards=2, rule="at least three nodes"),
    Sub("large graphs", lambda: graphs(13, 36), oracle, 200, 6000, shards=8, rule="at least three edges (13-36 nodes)"),
]
