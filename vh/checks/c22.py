"""C22: open graphs, corrections and flows read off patterns.

Runnable patterns (arbitrary and deterministic ones, with Cliffords) are generated; the pattern of the extracted
corrections must agree with the original on every (sampled, when many) branch, and each kind of flow must be recovered
exactly when an independent solver finds correction sets with these corrections.  Corrections generated on their own are
treated likewise.  Valid flows of each kind (any layering, any correction sets) go to a pattern and back.
"""
from __future__ import annotations

import warnings
from typing import Any

from hypothesis import strategies as st

from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import FlowError
from vh import big, conv, flowgen, gen, ref
from vh.checks import c20, c21
from vh.core import Info, Sub, check
from vh.flowref import G, dag_generations, gf2_solve
from vh.util import compare_branches, raises

Sets = dict[int, set[int]]


def clean(c: Any) -> Sets:
    return {v: set(s) for v, s in c.items() if s}


def graph_of(og: Any, planes: bool = False) -> G:
    lab = {}
    for v, m in og.measurements.items():
        if planes:
            lab[v] = m.to_plane().name
        else:
            lab[v] = m.to_plane_or_axis().name
    return G(sorted(og.graph.nodes), og.graph.edges, og.input_nodes, og.output_nodes, lab)


def reference_pauli(g: G, xc: Sets, zc: Sets, layers: list[set[int]]) -> dict[int, int] | None:
    """Correction sets of a Pauli flow in that order which induce these corrections."""
    cf = {}
    future = 0
    for layer in layers:
        for v in layer:
            u = g.idx[v]
            if (g.outs >> u) & 1:
                continue
            rows = g.system("p", u, future)
            x, z = g.mask(xc.get(v, ())), g.mask(zc.get(v, ()))
            for j in range(g.n):
                if (future >> j) & 1:
                    rows += [(1 << j, x >> j & 1), (g.adj[j], z >> j & 1)]
            s = gf2_solve(rows)
            if s is None or x & ~future or z & ~future:
                return None
            cf[u] = s
        future |= g.mask(layer)
    return cf


def induced(g: G, cf: Any, layers: list[set[int]]) -> tuple[Sets, Sets]:
    pos = {v: i for i, layer in enumerate(layers) for v in layer}
    x = {v: {w for w in s if pos[w] < pos[v]} for v, s in cf.items()}
    z = {v: {w for w in g.unmask(g.odd(g.mask(s))) if pos[w] < pos[v]} for v, s in cf.items()}
    return clean(x), clean(z)


def check_flows(xz: Any, info: Info) -> None:
    """Recovery of the three kinds of flow from corrections, against the reference."""
    og = xz.og
    layers = [set(x) for x in xz.partial_order_layers]
    xc, zc = clean(xz.x_corrections), clean(xz.z_corrections)
    g = graph_of(og)
    want = reference_pauli(g, xc, zc, layers)
    try:
        got: Any = xz.to_pauliflow()
    except FlowError as e:
        got = e
        check(str(e).strip() != "", "empty message")
    if want is None:
        check(isinstance(got, FlowError), lambda: f"Pauli flow {got} recovered from x={xc} z={zc} layers={layers}, which come from no Pauli flow")
        info.label("no Pauli flow")
    else:
        check(not isinstance(got, FlowError), lambda: f"no Pauli flow recovered from x={xc} z={zc} layers={layers}, which come from {[(g.nodes[u], sorted(g.unmask(s))) for u, s in want.items()]}")
        bad = g.problems("p", got.correction_function, got.partial_order_layers)
        check(not bad, lambda: f"recovered Pauli flow {got} violates {bad}")
        check(induced(g, got.correction_function, [set(x) for x in got.partial_order_layers]) == (xc, zc), lambda: f"recovered Pauli flow {got} induces other corrections than x={xc} z={zc}")
        info.label("Pauli flow")
    if any(not hasattr(m, "to_plane") for m in og.measurements.values()):
        return
    g = graph_of(og, planes=True)
    for kind, fn in (("c", xz.to_causalflow), ("g", xz.to_gflow)):
        if kind == "c":
            cf = {v: set(s) for v, s in xz.x_corrections.items()}
        else:
            cf = {v: xc.get(v, set()) | ({v} if g.labels[g.idx[v]] in ("XZ", "YZ") else set()) for v in og.measurements}
        bad = g.problems(kind, cf, layers)
        try:
            got = fn()
        except FlowError as e:
            got = e
        if bad:
            check(isinstance(got, FlowError), lambda: f"flow {got} recovered from x={xc} z={zc} layers={layers}, although {bad}")
            info.label(f"no {flowgen.KINDS[kind]}")
            continue
        check(not isinstance(got, FlowError), lambda: f"{flowgen.KINDS[kind]} {cf} not recovered from x={xc} z={zc} layers={layers}: {got!r}")
        check(type(got).__name__ == flowgen.KINDS[kind], f"{type(got)}")
        check({v: set(s) for v, s in got.correction_function.items()} == cf and [set(x) for x in got.partial_order_layers] == layers, lambda: f"{got} recovered instead of {cf} {layers}")
        got.check_well_formed()
        if induced(g, cf, layers) == (xc, zc):
            info.label(flowgen.KINDS[kind])
            back = got.to_xzcorrections()
            check((clean(back.x_corrections), clean(back.z_corrections)) == (xc, zc), "the recovered flow induces other corrections")
        else:
            info.label(f"{flowgen.KINDS[kind]} with other Z-corrections")


def pattern_oracle(case: Any, info: Info) -> None:
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    plain = all(c[0] != "N" or c[2] == "PLUS" for c in d["cmds"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not plain:
            info.label("other preparations")
            for fn in (p.to_opengraph, p.to_xzcorrections, p.to_gflow):
                check(raises(ValueError, fn) is not None, f"{fn} accepted a preparation other than |+>")
            check(conv.freeze(p) == before, "the pattern was changed")
            return
        og = p.to_opengraph()
        xz = p.to_xzcorrections()
    check(conv.freeze(p) == before, "the pattern was changed")
    ms = ref.measured(d["cmds"])
    prepared = [*d["in"], *(c[1] for c in d["cmds"] if c[0] == "N")]
    check(set(og.graph.nodes) == set(prepared) and set(og.measurements) == set(ms), "the open graph has other nodes or measured nodes")
    check(list(og.input_nodes) == d["in"] and list(og.output_nodes) == d["out"], lambda: f"inputs {og.input_nodes} outputs {og.output_nodes} instead of {d['in']} {d['out']}")
    edges = set()
    for c in d["cmds"]:
        if c[0] == "E":
            edges ^= {frozenset(c[1:3])}
    check({frozenset(e) for e in og.graph.edges} == edges, lambda: f"edges {sorted(og.graph.edges)} instead of {sorted(map(sorted, edges))}")
    check(og.isclose(xz.og), "the corrections are for another graph")
    xz.check_well_formed()
    q = xz.to_pattern()
    q.check_runnability()
    compare_branches(d, conv.describe(q), case["picks"], info, "pattern of the extracted corrections")
    info.nt(len(ms) > 0 and bool(xz.x_corrections or xz.z_corrections))
    # layers: outputs, then as few as the domains allow
    outs = set(d["out"])
    pairs = [(a, b) for c in (xz.x_corrections, xz.z_corrections) for a, s in c.items() for b in s if b not in outs]
    gens = dag_generations(pairs, set(ms))
    assert gens is not None
    layers = [set(x) for x in p.partial_order_layers()]
    check(not graph_of(og).xz_problems(xz.x_corrections, xz.z_corrections, layers), lambda: f"layers {layers} contradict corrections {xz.x_corrections} {xz.z_corrections}")
    check(len(layers) == len(gens) + bool(outs), lambda: f"layers {layers} are not as few as possible: {gens}")
    check_flows(xz, info)
    if any(m.__class__.__name__ == "PauliMeasurement" for m in og.measurements.values()):
        info.label("Pauli measurements")
        for fn in (p.to_causalflow, p.to_gflow):
            check(raises(TypeError, fn) is not None, "flow for planar measurements recovered in spite of Pauli measurements")
        r = p.to_bloch()
    else:
        r = p
    xzb = xz.to_bloch()
    check([set(x) for x in xzb.partial_order_layers] == [set(x) for x in xz.partial_order_layers] and clean(xzb.x_corrections) == clean(xz.x_corrections) and clean(xzb.z_corrections) == clean(xz.z_corrections), "to_bloch changed the corrections")
    if r is not p:
        check_flows(xzb, info)
    xzr = r.to_xzcorrections()  # (Clifford commands on measured nodes may select other planes than in xzb)
    for fn, gn in ((r.to_causalflow, xzr.to_causalflow), (r.to_gflow, xzr.to_gflow), (p.to_pauliflow, xz.to_pauliflow)):
        a, b = attempt(fn), attempt(gn)
        check((a is None) == (b is None), lambda: f"{fn}: {a} from the pattern, {b} from its corrections")
        if a is not None:
            check(a.correction_function == b.correction_function and a.og.isclose(b.og), lambda: f"{a} from the pattern, {b} from its corrections")


def attempt(fn: Any) -> Any:
    try:
        return fn()
    except FlowError:
        return None


def corrections_oracle(case: Any, info: Info) -> None:
    og = conv.opengraph(case["og"])
    g = G.of(case["og"])
    xc = {v: frozenset(s) for v, s in case["x"]}
    zc = {v: frozenset(s) for v, s in case["z"]}
    layers = [set(x) for x in case["layers"]]
    if g.xz_problems(xc, zc, layers):
        info.label("not well formed")
        return
    info.nt(bool(xc or zc))
    # conditions on planes need measurements that have one: labels that are axes only admit Pauli flow
    check_flows(XZCorrections(og, xc, zc, tuple(frozenset(x) for x in layers)), info)
    if not any(set(s) & set(case["og"]["in"]) for s in xc.values()):
        info.label("no correction on inputs")
    check_flows(XZCorrections.from_measured_nodes_mapping(og, xc, zc), info)


def back_oracle(case: Any, info: Info) -> None:
    """A valid flow, its pattern, and the flow recovered from the pattern."""
    og = c21.build(case["og"])
    g = G.of(case["og"])
    kind = case["kind"]
    layers = [set(x) for x in case["layers"]]
    cf = {v: set(s) for v, s in case["cf"]}
    flow = c21.CLS[kind](og, {v: frozenset(s) for v, s in cf.items()}, tuple(frozenset(x) for x in layers))
    p = flow.to_xzcorrections().to_pattern()
    how = case["tweak"][0] % 4
    if how == 1:
        p.standardize()
    elif how == 2:
        p.minimize_space()
    elif how == 3:
        p.parallelize_pattern()
    info.nt(bool(cf))
    info.label(["as generated", "standardized", "space minimised", "parallelized"][how])
    og2 = p.to_opengraph()
    check(set(og2.graph.nodes) == set(og.graph.nodes) and {frozenset(e) for e in og2.graph.edges} == {frozenset(e) for e in og.graph.edges}, "another graph comes back")
    check(list(og2.input_nodes) == list(og.input_nodes) and list(og2.output_nodes) == list(og.output_nodes), "other inputs or outputs come back")
    check({v: m for v, m in og2.measurements.items()} == {v: m for v, m in og.measurements.items()}, lambda: f"measurements {og2.measurements} come back instead of {og.measurements}")
    from graphix.clifford import Clifford

    check({v: c for v, c in og2.output_cliffords.items() if c != Clifford.I} == {v: c for v, c in og.output_cliffords.items() if c != Clifford.I}, lambda: f"Cliffords {og2.output_cliffords} come back instead of {og.output_cliffords}")
    want = induced(g, cf, layers)
    xz = p.to_xzcorrections()
    check((clean(xz.x_corrections), clean(xz.z_corrections)) == want, lambda: f"corrections {xz.x_corrections} {xz.z_corrections} come back instead of {want}")
    fn = {"c": p.to_causalflow, "g": p.to_gflow, "p": p.to_pauliflow}[kind]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = fn()
        except FlowError as e:
            if kind != "p" or reference_pauli(g, *want, [set(x) for x in xz.partial_order_layers]) is not None:
                raise
            # the flow exists, but not in the layers computed from the corrections, the only ones tried
            info.finding("pauliflow-other-order", e)
            return
    info.label(flowgen.KINDS[kind])
    bad = g.problems(kind, got.correction_function, got.partial_order_layers)
    check(not bad, lambda: f"{got} comes back, which violates {bad}")
    check(induced(g, got.correction_function, [set(x) for x in got.partial_order_layers]) == want, lambda: f"{got} comes back, which induces other corrections")
    if kind != "p":
        check({v: set(s) for v, s in got.correction_function.items()} == cf, lambda: f"{got} comes back instead of {flow}")


def patterns() -> Any:
    soup = {"max_active": 4, "max_total": 8, "max_steps": 24, "min_steps": 6}
    pat = st.one_of(gen.soups(states=False, **soup), gen.soups(states=False, **soup), gen.det_patterns(max_meas=6, min_meas=2, paulis=False, pauli_bias=False),
                    gen.det_patterns(max_meas=6, min_meas=2), gen.soups(states=False, clifford=False, meas=gen.meas_strategy(1), **soup), gen.soups(**soup))
    return st.fixed_dictionaries({"pat": pat, "picks": gen.picks()})


def large_patterns() -> Any:
    pat = st.one_of(big.seeded(big.soup, 20, 80, states=False, max_inputs=3), big.seeded(big.soup, 20, 80, states=False, clifford=False, pauli=1.0), big.seeded(big.det, 8, 30), big.seeded(big.det, 8, 30, clifford=False, pauli=0.0))
    return st.fixed_dictionaries({"pat": pat, "picks": gen.picks()})


SUBS = [
    Sub("patterns", patterns, pattern_oracle, 2500, 50000, shards=6, rule="at least one measurement and one correction"),
    Sub("corrections", c20.corrections, corrections_oracle, 3000, 60000, shards=4, rule="well formed, with at least one correction"),
    Sub("back", c21.flows, back_oracle, 2000, 40000, shards=4, rule="at least one measured node"),
    Sub("large patterns", large_patterns, pattern_oracle, 250, 8000, shards=5, rule="as patterns (20-80 commands)"),
    Sub("large corrections", lambda: c20.corrections(large=True), corrections_oracle, 200, 6000, shards=4, rule="as corrections (10-40 nodes)"),
    Sub("large back", lambda: c21.flows(large=True), back_oracle, 200, 6000, shards=4, rule="as back (8-30 nodes)"),
]
