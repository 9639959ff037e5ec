"""C12: structural queries describe the pattern they are asked about (definitions evaluated on the command list)."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from graphix.optimization import StandardizedPattern
from vh import big, conv, gen, ref
from vh.core import Info, Sub, check
from vh.util import compare_branches


def graph_of(d):  # noqa: ANN001, ANN201
    nodes = [*d["in"], *(c[1] for c in d["cmds"] if c[0] == "N")]
    adj: dict[int, set[int]] = {n: set() for n in nodes}
    for c in d["cmds"]:
        if c[0] == "E":
            adj[c[1]] ^= {c[2]}
            adj[c[2]] ^= {c[1]}
    return adj


def spaces(d):  # noqa: ANN001, ANN201
    cur = len(d["in"])
    out = []
    for c in d["cmds"]:
        if c[0] == "N":
            cur += 1
            out.append(cur)
        elif c[0] == "M":
            cur -= 1
            out.append(cur)
    return out


def plus(d) -> bool:  # noqa: ANN001
    return all(abs(abs(np.vdot(ref.state_vec(c[2]), ref.STATES["PLUS"])) - 1) < 1e-12 for c in d["cmds"] if c[0] == "N")


def dependencies(d):  # noqa: ANN001, ANN201
    """Dependencies of the standardized pattern: measured node -> nodes its (extended) domains contain, by pushing corrections forward."""
    x: dict[int, set[int]] = {}
    z: dict[int, set[int]] = {}
    deps: dict[int, set[int]] = {}
    for c in d["cmds"]:
        k = c[0]
        if k == "X":
            x[c[1]] = x.get(c[1], set()) ^ set(c[2])
        elif k == "Z":
            z[c[1]] = z.get(c[1], set()) ^ set(c[2])
        elif k == "E":
            a, b = c[1], c[2]
            xa, xb = x.get(a, set()), x.get(b, set())
            z[a] = z.get(a, set()) ^ xb
            z[b] = z.get(b, set()) ^ xa
        elif k == "M":
            deps[c[1]] = (set(c[3]) ^ x.get(c[1], set())) | (set(c[4]) ^ z.get(c[1], set()))
    return deps


def check_all(p, d, info: Info, picks) -> None:  # noqa: ANN001, C901
    adj = graph_of(d)
    check(p.n_node == len(adj) and p.nodes() == set(adj), f"n_node {p.n_node}, nodes {p.nodes()}, defined {sorted(adj)}")
    check(list(p.input_nodes) == d["in"] and list(p.output_nodes) == d["out"], "inputs/outputs")
    sp = spaces(d)
    check(p.space_list() == sp, f"space_list {p.space_list()}, defined {sp}")
    check(p.max_space() == max([len(d["in"]), *sp]), f"max_space {p.max_space()}, defined {max([len(d['in']), *sp])}")
    mc = p.measurement_commands()
    check(list(mc) == ref.measured(d["cmds"]) and all(m.node == n for n, m in mc.items()), "measurement_commands")
    check([conv.cmd_desc(m)[2:] for m in mc.values()] == [[conv.cmd_desc(conv.cmd(c))[2], sorted(c[3]), sorted(c[4])] for c in d["cmds"] if c[0] == "M"], "measurement_commands contents")
    order = list(mc)[::-1]
    check([m.node for m in p.sort_measurement_commands(order)] == order, "sort_measurement_commands")
    cl: dict[int, list] = {}
    for c in d["cmds"]:
        if c[0] == "C":
            cl.setdefault(c[1], []).append(c[2])
    got = p.clifford_commands()
    check(set(got) == set(cl), "clifford_commands nodes")
    for n, ws in cl.items():
        if len(ws) == 1:
            check(ref.same_up_to_phase(np.asarray(got[n].matrix), ref.word(ws[0])), "clifford_commands contents")
    if plus(d):
        deg = [len(v) for v in adj.values()]
        check(p.max_degree() == max(deg, default=0), f"max_degree {p.max_degree()}, defined {max(deg, default=0)}")
        check(p.isolated_nodes() == {n for n, v in adj.items() if not v}, "isolated_nodes")
        og = p.to_opengraph()
        check(set(og.graph.nodes) == set(adj) and {frozenset(e) for e in og.graph.edges} == {frozenset((a, b)) for a in adj for b in adj[a]}, "resource graph")
        check(list(og.input_nodes) == d["in"] and list(og.output_nodes) == d["out"] and set(og.measurements) == set(mc), "open graph interface")
        info.label("graph")
    if not cl:
        deps = dependencies(d)
        layers = p.partial_order_layers()
        pos = {n: i for i, l in enumerate(layers) for n in l}
        check(sorted(pos) == sorted(adj) and sum(map(len, layers)) == len(adj) and all(layers), f"layers {layers} do not partition the nodes")
        if d["out"]:
            check(layers[0] == frozenset(d["out"]), "first layer is not the outputs")
        for n, dom in deps.items():
            for m in dom:
                check(pos[m] > pos[n], f"{n} depends on {m} but layers are {layers}")
        depth: dict[int, int] = {}
        for n in ref.measured(d["cmds"]):
            depth[n] = 1 + max((depth[m] for m in deps[n]), default=0)
        check(len(layers) == max(depth.values(), default=0) + bool(d["out"]), f"{len(layers)} layers, longest dependency chain {max(depth.values(), default=0)}")
        info.label("layers")
    kinds = [c[0] for c in d["cmds"]]
    lax = [{"N": 0, "E": 1, "M": 2}.get(k, 3) for k in kinds]
    if lax == sorted(lax):
        cc = p.correction_commands()
        check([conv.cmd_desc(c) for c in cc] == [[c[0], c[1], sorted(c[2])] for c in d["cmds"] if c[0] in "XZ"], "correction_commands")
        info.label("standard")
    multi = len([c for c in d["cmds"] if c[0] == "E"]) != len({frozenset(c[1:3]) for c in d["cmds"] if c[0] == "E"})
    q = p.copy()
    text = conv.freeze(q)
    for i, n in enumerate(sorted(adj)):
        prepared = {m for j, m in enumerate(sorted(adj)) if (picks[0] >> ((i + j) % 20)) & 1} if picks[1] % 2 else None
        got = q.connected_nodes(n, prepared)
        if not (multi and lax == sorted(lax)):
            check(sorted(got) == sorted(adj[n] - (prepared or set())), f"connected_nodes({n}, {prepared}) = {got}, defined {sorted(adj[n] - (prepared or set()))}")
    if conv.freeze(q) != text:
        compare_branches(d, conv.describe(q), picks, info, "connected_nodes", limit_bits=3)
        info.label("connected-standardizes")


def queries(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    check_all(p, d, info, case["picks"])
    check(conv.freeze(p) == before, "a query changed the pattern")
    info.nt(len(ref.measured(d["cmds"])) >= 2 and sum(c[0] == "E" for c in d["cmds"]) >= 2)


def after_edits(case, info: Info) -> None:  # noqa: ANN001
    """The queries again, after each of a few in-place rewrites."""
    p = conv.pattern(case["pat"])
    done = []
    for op in case["ops"]:
        if op == "standardize":
            p.standardize()
        elif op == "shift":
            p.shift_signals(method="direct")
        elif op == "parallel":
            p.parallelize_pattern()
        elif op == "space":
            p.minimize_space()
        elif op == "push":
            p.perform_pauli_pushing()
        elif op == "remove":
            p.remove_pauli_measurements()
        elif op == "remove_std":
            p.remove_pauli_measurements(standardize=True)
        elif op == "cliffords":
            if p.n_node > 9:
                continue
            p.remove_local_clifford_commands()
        elif op == "reindex":
            p.reindex(lambda n: 3 * n + 1)
        elif op == "inputs":
            p.remove_input_nodes()
        elif op == "add":
            from graphix import command

            n = max(p.nodes(), default=0) + 1
            p.add(command.N(n))
            for m in [m for m in p.output_nodes[:-1] if m not in p.clifford_commands()][:2]:
                p.add(command.E((m, n)))
        done.append(op)
        try:
            check_all(p, conv.describe(p), info, case["picks"])
        except AssertionError as e:
            e.args = (f"after {done}: {e.args[0] if e.args else ''}",)
            raise
    info.label(*done)
    info.nt(len(set(done)) >= 2)


SUBS = [
    Sub("queries", lambda: st.fixed_dictionaries({"pat": st.one_of(gen.soups(max_active=4, max_total=9, max_steps=24, min_steps=6), gen.soups(max_active=5, max_total=9, max_steps=24, min_steps=6, states=False, clifford=False),
                                                                   gen.det_patterns(min_meas=2)), "picks": gen.picks()}), queries, quick=6000, thorough=120000, shards=4,
        rule="arbitrary runnable and deterministic patterns; every query against its definition on the command list; non-trivial: >=2 measurements and >=2 edges"),
    Sub("after_edits", lambda: st.fixed_dictionaries({"pat": gen.det_patterns(min_meas=1, max_meas=5, heavy=True), "picks": gen.picks(),
                                                      "ops": st.lists(st.sampled_from(["standardize", "shift", "parallel", "space", "push", "remove", "remove", "remove_std", "cliffords", "reindex", "inputs", "add"]), min_size=1, max_size=5)}),
        after_edits, quick=2500, thorough=50000, shards=4, rule="queries after every step of a history of in-place rewrites; non-trivial: >=2 different rewrites"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 40, 140), big.seeded(big.det, 10, 40)), "picks": gen.picks()}), queries, quick=250, thorough=8000, shards=4,
        rule="as queries, patterns of 40-140 commands"),
]
