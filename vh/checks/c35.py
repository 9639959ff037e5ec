"""C35: layouts, paths and the artists of finished figures compared with the object drawn.

Graphs with causal flows, gflows, Pauli flows and arbitrary corrections, and open graphs without any order, are laid
out with random scales; positions, order, path ends and the nodes met by straight paths are checked.  Whole figures
are rendered with the Agg backend for patterns and graphs under random options, and their artists (markers, labels,
lines, arrows, legend, limits) are read back.
"""
from __future__ import annotations

import io
import math
import os
import warnings
from collections import Counter
from typing import Any

os.environ["MPLBACKEND"] = "Agg"

import matplotlib as mpl
import numpy as np
from hypothesis import strategies as st
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.patches import FancyArrowPatch
from matplotlib.text import Annotation

from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.fundamentals import Axis, Plane
from graphix.measurements import Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.pattern import DrawPatternAnnotations, PatternError
from graphix.visualization import GraphVisualizer
from vh import big, conv, flowgen, gen
from vh.checks import c19
from vh.core import Discard, Info, Sub, check
from vh.util import raises

mpl.use("Agg")
CLASSES = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}
ANNOTATIONS = [DrawPatternAnnotations.Flow, DrawPatternAnnotations.XZCorrections, None]


# -------------------------------------------------------------------- cases

@st.composite
def flow_graphs(draw: Any, size: int = 1) -> dict[str, Any]:
    kind = draw(st.sampled_from("cgp"))
    if size == 2:
        og = draw(big.seeded(big.causal, 15, 45) if kind == "c" else big.seeded(big.planes, 12, 35, axes=0.0, changes=0))
    elif kind == "c":
        og = draw(c19.causal_graphs(3 + size, 3 + size))
    else:
        og = draw(gen.gflow_graphs(max_out=3, max_meas=4 + 3 * size, paulis=False, min_meas=0))
        og = {k: v for k, v in og.items() if k != "p"}
    og["meas"] = [[v, ["PL", m[1]]] for v, m in og["meas"]]
    if kind == "p":
        og = flowgen.relabel(draw, og, draw(st.integers(0, 3)))
    f = flowgen.draw_flow(draw, og, kind)
    return {"og": og, "kind": kind, "flow": f}


@st.composite
def corr_graphs(draw: Any) -> dict[str, Any]:
    """Arbitrary corrections on an arbitrary open graph (acyclic, without any flow)."""
    og = draw(gen.open_graphs(max_nodes=8, kinds="labels", min_nodes=1))
    meas = [v for v, _ in og["meas"]]
    order = list(draw(st.permutations(meas)))
    rest = [*order, *og["out"]]
    x, z = [], []
    for i, u in enumerate(order):
        for lst in (x, z):
            later = rest[i + 1 :]
            s = sorted(v for v in later if draw(st.integers(0, 3)) == 0)
            if s:
                lst.append([u, s])
    return {"og": og, "kind": "x", "x": x, "z": z}


scales = st.one_of(st.just([1, 1]), st.just([1, 1]), st.lists(st.sampled_from([0.05, 0.1, 0.15, 0.3, 0.5, 0.8, 1.5, 2, 3.25]), min_size=2, max_size=2))


@st.composite
def layout_cases(draw: Any, size: int = 1) -> dict[str, Any]:
    k = draw(st.integers(0, 5))
    base = draw(flow_graphs(size)) if size == 2 or k <= 3 else draw(corr_graphs()) if k == 4 else {"og": draw(gen.open_graphs(max_nodes=9, kinds="labels", min_nodes=0)), "kind": "o"}
    return {**base, "scale": draw(scales)}


def objects(case: Any) -> list[tuple[str, Any, Any]]:
    """(source, object, open graph) for the flow, its corrections and its graph."""
    og = conv.opengraph(case["og"])
    res: list[tuple[str, Any, Any]] = []
    if case["kind"] in CLASSES and case["flow"] is not None:
        cf, layers = case["flow"]
        if case["kind"] != "p":
            check(all(isinstance(m, Plane) for m in og.measurements.values()), "planes")
        f = CLASSES[case["kind"]](og, {k: frozenset(v) for k, v in cf}, tuple(frozenset(x) for x in layers))
        res += [("flow", f, og), ("corr", f.to_xzcorrections(), og)]
    elif case["kind"] == "x":
        res.append(("corr", XZCorrections.from_measured_nodes_mapping(og, {k: set(v) for k, v in case["x"]}, {k: set(v) for k, v in case["z"]}), og))
    res.append(("og", og, og))
    return res


def snapshot(o: Any) -> str:
    og = o if isinstance(o, OpenGraph) else o.og
    parts: list[Any] = [list(og.graph.nodes(data=True)), [tuple(e) for e in og.graph.edges(data=True)], list(og.input_nodes), list(og.output_nodes), sorted((k, repr(v)) for k, v in og.measurements.items()), repr(sorted(og.output_cliffords.items())), repr(og.graph.graph)]
    for name in ("correction_function", "x_corrections", "z_corrections"):
        if hasattr(o, name):
            parts.append(sorted((k, sorted(v)) for k, v in getattr(o, name).items()))
    if not isinstance(o, OpenGraph):
        parts.append([sorted(x) for x in o.partial_order_layers])
    return repr(parts)


def make(source: str, o: Any, **kw: Any) -> GraphVisualizer:
    fn = {"flow": GraphVisualizer.from_flow, "corr": GraphVisualizer.from_xzcorrections, "og": GraphVisualizer.from_opengraph}[source]
    return fn(o, **kw)


def arrows_of(source: str, o: Any) -> dict[tuple[int, int], str]:
    if source == "flow":
        return {(u, v): "F" for u, s in o.correction_function.items() for v in s}
    if source == "corr":
        res: dict[tuple[int, int], str] = {}
        for name, corr in (("X", o.x_corrections), ("Z", o.z_corrections)):
            for u, s in corr.items():
                for v in s:
                    res[u, v] = res.get((u, v), "") + name
        return res
    return {}


def seg_dist(a: Any, b: Any, p: Any) -> float:
    """Distance from p to the segment from a to b when p projects inside it, infinity otherwise."""
    a, b, p = (np.asarray(x, dtype=float) for x in (a, b, p))
    d = b - a
    t = float(np.dot(p - a, d) / np.dot(d, d))
    return float(np.linalg.norm(a + t * d - p)) if 0 <= t <= 1 else math.inf


def bezier(path: Any, k: int = 200) -> np.ndarray:
    """De Casteljau evaluation."""
    t = np.linspace(0, 1, k)[:, None]
    pts = [np.repeat(np.asarray(p, dtype=float)[None, :], k, axis=0) for p in path]
    while len(pts) > 1:
        pts = [(1 - t) * a + t * b for a, b in zip(pts, pts[1:])]
    return pts[0]


def check_layout(source: str, o: Any, og: Any, gv: GraphVisualizer, scale: list[float]) -> None:
    nodes = list(og.graph.nodes)
    pos = gv.pos
    sx, sy = scale
    check(set(pos) == set(nodes), lambda: f"{source}: positions for {sorted(pos)}, nodes {sorted(nodes)}")
    pts = {n: (round(pos[n][0] / sx, 6), round(pos[n][1] / sy, 6)) for n in nodes}
    check(all(len(pos[n]) == 2 and np.isfinite(pos[n]).all() for n in nodes), "positions are not points")
    check(len(set(pts.values())) == len(nodes), lambda: f"{source}: two nodes at one position: {pts}")
    for i, n in enumerate(nodes):
        for m in nodes[i + 1 :]:
            check(math.hypot(pts[n][0] - pts[m][0], pts[n][1] - pts[m][1]) > 0.9, lambda: f"{source}: nodes {n} and {m} overlap at {pts[n]}, {pts[m]}")  # noqa: B023
    if source == "og":
        check(gv.arrow_paths is None and gv.n_layers is None, "arrows or layers for an open graph")
        if nodes:
            right = max(p[0] for p in pts.values())
            check(all(pts[n][0] == right for n in og.output_nodes), lambda: f"outputs are not in the last column: {pts}")
    else:
        layers = o.partial_order_layers
        check(gv.n_layers == len(layers), "number of layers")
        for idx, layer in enumerate(layers):
            for n in layer:
                check(pts[n][0] == len(layers) - 1 - idx, lambda: f"{source}: node {n} of layer {idx} of {len(layers)} drawn at {pts[n]}")  # noqa: B023
        for (u, v), kind in arrows_of("corr", o if source == "corr" else o.to_xzcorrections()).items():
            check(pts[v][0] > pts[u][0], lambda: f"{source}: node {v}, {kind}-corrected after measuring {u}, is not to its right: {pts}")  # noqa: B023


def check_paths(source: str, o: Any, og: Any, gv: GraphVisualizer, scale: list[float]) -> int:
    pos = gv.pos
    unit = min(scale) >= 0.99
    got = [frozenset(e) for e in gv.edge_paths]
    want = {frozenset(e) for e in og.graph.edges}
    check(len(got) == len(set(got)) and set(got) == want, lambda: f"paths for the edges {sorted(map(sorted, got))} instead of {sorted(map(sorted, want))}")
    arrows = arrows_of(source, o)
    if source != "og":
        assert gv.arrow_paths is not None
        check(set(gv.arrow_paths) == set(arrows), lambda: f"arrows {sorted(gv.arrow_paths)} instead of {sorted(arrows)}")
        colors: dict[str, set[Any]] = {}
        for a, kind in arrows.items():
            colors.setdefault(kind, set()).add(gv.arrow_paths[a].color)
        check(all(len(c) == 1 for c in colors.values()) and len(set.union(set(), *colors.values())) == len(colors), lambda: f"colours do not tell the corrections apart: {colors}")
    bent = 0
    paths = [(a, p, False) for a, p in gv.edge_paths.items()] + [(a, p.value, True) for a, p in (gv.arrow_paths or {}).items()]
    for (u, v), path, arrow in paths:
        if u == v:
            d = max(float(np.linalg.norm(np.subtract(q, pos[u]))) for q in path)
            check(len(path) > 2 and d < 0.6, lambda: f"loop of {u}: {path}")  # noqa: B023
            continue
        check(len(path) >= 2, lambda: f"path of {u}-{v} with {len(path)} points")  # noqa: B023
        ends = [np.asarray(path[0], dtype=float), np.asarray(path[-1], dtype=float)]
        target = [np.asarray(pos[u], dtype=float), np.asarray(pos[v], dtype=float)]
        check(all(np.allclose(a, b, atol=1e-9) for a, b in zip(ends, target, strict=True)), lambda: f"path of {u}-{v} from {ends} instead of {target}")  # noqa: B023
        others = [n for n in pos if n not in (u, v)]
        if len(path) == 2:
            if unit:
                for n in others:
                    check(seg_dist(*path, pos[n]) >= 0.2 - 1e-9, lambda: f"{source}: the straight {'arrow' if arrow else 'edge'} {u}-{v} from {path[0]} to {path[1]} passes through node {n} at {pos[n]}")  # noqa: B023
        else:
            bent += 1
            if unit and len(pos) <= 7:
                curve = bezier(path)
                for n in others:
                    d = float(np.linalg.norm(curve - np.asarray(pos[n], dtype=float), axis=1).min())
                    check(d > 0.02, lambda: f"{source}: the curve {u}-{v} {path} passes through node {n} at {pos[n]}")  # noqa: B023
        if arrow and unit and frozenset((u, v)) in want and len(path) == 2:
            # an arrow along an edge must not hide the edge: one of the two is bent
            e = gv.edge_paths.get((u, v), gv.edge_paths.get((v, u)))
            check(e is not None and len(e) > 2, lambda: f"{source}: arrow and edge {u}-{v} coincide")  # noqa: B023
    return bent


def layout_oracle(case: Any, info: Info) -> None:
    bent = 0
    for source, o, og in objects(case):
        before = snapshot(o)
        kw = {} if case["scale"] == [1, 1] else {"node_distance": tuple(case["scale"])}
        gv = make(source, o, **kw)
        check(snapshot(o) == before, f"laying out the {source} modified it")
        check_layout(source, o, og, gv, case["scale"])
        bent += check_paths(source, o, og, gv, case["scale"])
        info.label(source)
    info.nt(len(case["og"]["edges"]) >= 2)
    info.label(case["kind"], "bent" if bent else "straight", "scaled" if case["scale"] != [1, 1] else "unit")


# ------------------------------------------------------------------- figures

@st.composite
def figure_cases(draw: Any) -> dict[str, Any]:
    what = draw(st.sampled_from(["pattern", "pattern", "object", "object"]))
    case: dict[str, Any] = {"what": what}
    if what == "pattern":
        case["p"] = draw(gen.det_patterns(max_meas=4, max_out=2)) if draw(st.integers(0, 2)) else draw(gen.soups(max_active=3, max_total=6, max_steps=14))
        case["p"]["cmds"] = [["N", c[1], "PLUS"] if c[0] == "N" else c for c in case["p"]["cmds"]]
        case["ann"] = draw(st.integers(0, 2))
        case["from"] = draw(st.booleans())
    else:
        case |= draw(flow_graphs(size=0)) if draw(st.integers(0, 3)) else draw(corr_graphs())
        case["src"] = draw(st.integers(0, 2))
    case["opts"] = {k: draw(st.booleans()) for k in ("pauli_measurements", "measurement_labels", "local_clifford", "legend")}
    case["labels"] = draw(st.sampled_from(["default", "true", "false", "map", "part", "empty"]))
    # a figure narrower than its legend has no room for the axes
    case["scale"] = [max(x, 0.5) for x in draw(scales)]
    case["size"] = draw(st.sampled_from([None, None, [4, 3]]))
    return case


def rgba(c: Any) -> tuple[float, ...]:
    return tuple(round(float(x), 3) for x in mcolors.to_rgba(c))


def read_figure(draw: Any) -> Any:
    plt.close("all")
    buf = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        draw(buf)
    check(len(buf.getvalue()) > 0, "nothing was written")
    figs = [plt.figure(n) for n in plt.get_fignums()]
    check(len(figs) == 1, lambda: f"{len(figs)} figures")
    return figs[0]


def check_figure(fig: Any, og: Any, gv: GraphVisualizer, source: str, o: Any, case: Any) -> None:
    (ax,) = fig.axes
    pos = gv.pos
    opts = case["opts"]
    # nodes: markers by position
    marks: dict[tuple[float, float], list[tuple[Any, int]]] = {}
    for c in ax.collections:
        if not isinstance(c, PathCollection):
            continue
        offs = np.asarray(c.get_offsets())
        fcs = c.get_facecolors()
        shapes = c.get_paths()
        for i, off in enumerate(offs):
            marks.setdefault((round(float(off[0]), 6), round(float(off[1]), 6)), []).append((rgba(fcs[i % len(fcs)]), len(shapes[i % len(shapes)].vertices)))
    at = {(round(float(p[0]), 6), round(float(p[1]), 6)): n for n, p in pos.items()}
    check(set(marks) == set(at), lambda: f"nodes drawn at {sorted(marks)}, expected {sorted(at)}")
    kinds: dict[str, set[Any]] = {"in": set(), "not in": set(), "out": set(), "pauli": set(), "plain": set()}
    for p, n in at.items():
        check(len(marks[p]) == 1, lambda: f"node {n} drawn {len(marks[p])} times")  # noqa: B023
        face, shape = marks[p][0]
        kinds["in" if n in og.input_nodes else "not in"].add(shape)
        pauli = n not in og.output_nodes and isinstance(og.measurements[n], PauliMeasurement) and opts["pauli_measurements"]
        kinds["out" if n in og.output_nodes else "pauli" if pauli else "plain"].add(face)
    check(not kinds["in"] & kinds["not in"], "input nodes are drawn as other nodes")
    check(all(len(kinds[k]) <= 1 for k in ("out", "pauli", "plain")), lambda: f"colours {kinds}")
    check(not kinds["out"] & kinds["plain"] and not kinds["out"] & kinds["pauli"] and not kinds["pauli"] & kinds["plain"], lambda: f"colours do not tell nodes apart: {kinds}")
    # texts
    texts = [t for t in ax.texts if t.get_text()]
    shifted = [(float(t.get_position()[0]), t.get_text()) for t in texts if t.get_transform() != ax.transData]
    texts = [t for t in texts if t.get_transform() == ax.transData]
    labels = Counter((round(float(t.get_position()[0]), 6), round(float(t.get_position()[1]), 6), t.get_text()) for t in texts)
    mapping = label_map(og, case["labels"])
    for p, n in at.items():
        here = [t for (x, y, t), k in labels.items() for _ in range(k) if (x, y) == p]
        check(here == ([mapping[n]] if n in mapping else []), lambda: f"node {n} labelled {here}, expected {mapping.get(n)}")  # noqa: B023
    near = [(x, y, t) for (x, y, t) in labels.elements() if (x, y) not in at]
    expected: list[tuple[Any, str]] = []
    if opts["measurement_labels"]:
        for n, m in og.measurements.items():
            pa = m.to_plane_or_axis() if not isinstance(m, (Plane, Axis)) else m
            expected.append((n, pa.name))
    if opts["local_clifford"]:
        expected += [(n, str(c)) for n, c in og.output_cliffords.items()]
    free = list(near)
    for n, t in expected:
        cand = [e for e in free if e[2] == t and math.hypot(e[0] - pos[n][0], e[1] - pos[n][1]) < 0.45]
        check(bool(cand), lambda: f"no label {t!r} near node {n}: {near}")  # noqa: B023
        free.remove(min(cand, key=lambda e: math.hypot(e[0] - pos[n][0], e[1] - pos[n][1])))  # noqa: B023
    check(not free, lambda: f"unexpected texts {free}")
    # layers
    if source != "og":
        k = len(o.partial_order_layers)
        nums = sorted((round(x / case["scale"][0]), t) for x, t in shifted if t != "Layer")
        check(nums == sorted((i, str(k - 1 - i)) for i in range(k)), lambda: f"layer labels {nums} for {k} layers")
        check(sum(t == "Layer" for _, t in shifted) == (1 if k else 0), "Layer caption")
    else:
        check(not shifted, lambda: f"unexpected texts {shifted}")
    # limits
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    for n, p in pos.items():
        check(x0 < p[0] < x1 and y0 < p[1] < y1, lambda: f"node {n} at {p} outside of the figure {(x0, x1, y0, y1)}")  # noqa: B023
    # lines: bent paths are plotted as curves, straight ones drawn by networkx
    curves = [np.asarray(ln.get_xydata(), dtype=float) for ln in ax.lines if len(ln.get_xydata()) > 2]
    segs = [np.asarray(s, dtype=float) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
    arrows = gv.arrow_paths or {}
    want_curves = [(a, p, False) for a, p in gv.edge_paths.items() if len(p) > 2] + [(a, p.value, True) for a, p in arrows.items() if len(p.value) > 2]
    check(len(curves) == len(want_curves), lambda: f"{len(curves)} curves instead of {len(want_curves)}")
    for (u, v), path, arrow in want_curves:
        tol = 0.25 if arrow else 1e-6

        def fits(c: np.ndarray) -> bool:
            return bool(np.linalg.norm(c[0] - np.asarray(path[0])) < 1e-6 and np.linalg.norm(c[-1] - np.asarray(path[-1])) < tol)  # noqa: B023

        check(any(fits(c) for c in curves), lambda: f"no curve from {pos[u]} to {pos[v]}")  # noqa: B023
    want_segs = [a for a, p in gv.edge_paths.items() if len(p) == 2]
    check(len(segs) == len(want_segs), lambda: f"{len(segs)} straight edges instead of {len(want_segs)}")
    for u, v in want_segs:
        check(any((np.allclose(s[0], pos[u]) and np.allclose(s[-1], pos[v])) or (np.allclose(s[0], pos[v]) and np.allclose(s[-1], pos[u])) for s in segs), lambda: f"no line for the edge {u}-{v}")  # noqa: B023
    straight = [p for p in ax.patches if isinstance(p, FancyArrowPatch)]
    bent = [t for t in ax.texts if isinstance(t, Annotation) and not t.get_text() and t.arrow_patch is not None]
    n_straight = sum(len(p.value) == 2 for p in arrows.values())
    layers_arrow = 1 if source != "og" and len(o.partial_order_layers) > 1 else 0
    check(len(straight) == n_straight, lambda: f"{len(straight)} straight arrows instead of {n_straight}")
    check(len(bent) == len(arrows) - n_straight + layers_arrow, lambda: f"{len(bent)} arrow heads instead of {len(arrows) - n_straight + layers_arrow}")
    used = Counter(rgba(p.get_edgecolor()) for p in straight)
    check(used == Counter(rgba(p.color) for p in arrows.values() if len(p.value) == 2), "colours of the arrows")
    # legend
    legend = ax.get_legend()
    if not opts["legend"] or not pos:
        check(legend is None, "a legend that was not requested")
    else:
        check(legend is not None, "no legend")
        got = sorted(t.get_text() for t in legend.get_texts())
        want = ["Input nodes"] * bool(og.input_nodes) + ["Output nodes"] * bool(og.output_nodes)
        want += ["Pauli-measured nodes"] * (opts["pauli_measurements"] and any(isinstance(m, PauliMeasurement) for m in og.measurements.values()))
        want += ["Graph edge"] * bool(og.graph.edges)
        kinds2 = set(arrows_of(source, o).values())
        want += ["Correction function"] * ("F" in kinds2) + ["X corrections"] * ("X" in kinds2) + ["Z corrections"] * ("Z" in kinds2) + ["X and Z corrections"] * ("XZ" in kinds2)
        check(got == sorted(want), lambda: f"legend {got} instead of {sorted(want)}")


def label_map(og: Any, how: str) -> dict[int, str]:
    nodes = list(og.graph.nodes)
    if how in ("default", "true"):
        return {n: str(n) for n in nodes}
    if how in ("map", "part"):
        return {n: f"q{i}" for i, n in enumerate(nodes) if how == "map" or i % 2 == 0}
    return {}


def options(case: Any, og: Any) -> dict[str, Any]:
    kw: dict[str, Any] = dict(case["opts"])
    if case["labels"] != "default":
        kw["node_labels"] = {"true": True, "false": False}.get(case["labels"], label_map(og, case["labels"]))
    if case["scale"] != [1, 1]:
        kw["node_distance"] = tuple(case["scale"])
    if case["size"]:
        kw["figsize"] = tuple(case["size"])
    return kw


def figure_oracle(case: Any, info: Info) -> None:
    try:
        if case["what"] == "pattern":
            p = conv.pattern(case["p"])
            ann = ANNOTATIONS[case["ann"]]
            try:
                og = p.to_opengraph()
            except NotImplementedError as e:
                raise Discard("not standardizable") from e
            kw = options(case, og)
            before = conv.freeze(p)
            err = None

            def draw(buf: Any) -> None:
                nonlocal err
                err = raises((PatternError,), lambda: p.draw(annotations=ann, flow_from_pattern=case["from"], filename=buf, **kw))

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                flow = og.to_pauliflow_or_none() if ann == DrawPatternAnnotations.Flow else None
                plt.close("all")
                buf = io.BytesIO()
                draw(buf)
            check(conv.freeze(p) == before, "drawing modified the pattern")
            if err is not None:
                check(ann == DrawPatternAnnotations.Flow and flow is None, lambda: f"{err!r} although the graph has a flow")
                check(not buf.getvalue(), "an error after writing the figure")
                info.label("no flow")
                return
            (fig,) = [plt.figure(n) for n in plt.get_fignums()]
            info.label("pattern", str(ann))
            # the figure itself determines the nodes; compare with the layout of the graph or corrections
            if ann == DrawPatternAnnotations.XZCorrections:
                o = p.to_xzcorrections()
                gv = make("corr", o, **kw)
                check_figure(fig, o.og, gv, "corr", o, case)
            else:
                (ax,) = fig.axes
                pts = [off for c in ax.collections if isinstance(c, PathCollection) for off in np.asarray(c.get_offsets())]
                check(len(pts) == len(og.graph.nodes), lambda: f"{len(pts)} nodes drawn instead of {len(og.graph.nodes)}")
                names = sorted(t.get_text() for t in ax.texts if t.get_transform() == ax.transData and any(np.allclose(t.get_position(), q) for q in pts) and t.get_text())
                check(names == sorted(label_map(og, case["labels"]).values()), lambda: f"labels {names}")
            info.nt(len(og.graph.edges) > 0)
            return
        objs = objects(case)
        source, o, og = objs[case["src"] % len(objs)]
        kw = options(case, og)
        before = snapshot(o)
        holder: list[GraphVisualizer] = []

        def draw2(buf: Any) -> None:
            holder.append(make(source, o, filename=buf, **kw))
            holder[0].visualize()

        fig = read_figure(draw2)
        check(snapshot(o) == before, f"drawing the {source} modified it")
        if case["size"] and not case["opts"]["legend"]:
            check(np.allclose(fig.get_size_inches(), case["size"]), lambda: f"figure of size {fig.get_size_inches()}")
        check_figure(fig, og, holder[0], source, o, case)
        info.nt(len(case["og"]["edges"]) > 0)
        info.label(source, case["labels"])
    finally:
        plt.close("all")


SUBS = [
    Sub("layouts", layout_cases, layout_oracle, 1600, 60000, shards=8, rule="at least two edges"),
    Sub("figures", figure_cases, figure_oracle, 500, 12000, shards=8, rule="at least one edge"),
    Sub("large layouts", lambda: layout_cases(2), layout_oracle, 64, 2500, shards=8, rule="at least two edges (12-45 nodes)"),
]
