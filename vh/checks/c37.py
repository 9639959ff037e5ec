"""C37: chains of conversions between representations preserve the computation.

A computation starts as a circuit, a deterministic pattern or an open graph with flow.  A generated history converts it
from one representation to another (circuit, pattern, standardized pattern, open graph, causal/generalised/Pauli flow,
corrections), rewrites it within a representation, and extends it by further gates, in any order.  After every step the
object at hand is read out as plain data and its linear map, computed by the reference (for patterns: on every or on
sampled branches), must be the one carried along from the start, up to phase.  Objects left behind must stay unchanged.
"""
from __future__ import annotations

import warnings
from typing import Any, Callable

import numpy as np
from graphix_qasm_parser import OpenQASMParser
from hypothesis import strategies as st

from graphix import command, optimization
from graphix.clifford import Clifford
from graphix.flow.core import PauliFlow, XZCorrections
from graphix.flow.exceptions import FlowError
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.opengraph import OpenGraph, OpenGraphError
from graphix.optimization import StandardizedPattern
from graphix.parameter import Placeholder
from graphix.pattern import Pattern
from graphix.qasm3_exporter import circuit_to_qasm3
from graphix.states import BasicStates
from graphix.transpiler import Circuit, instructions_to_jcz, transpile_swaps
from vh import big, conv, gen, ref
from vh.checks import c21, c24
from vh.core import Info, Sub, check
from vh.flowref import G
from vh.util import deterministic_map

MAX_MEAS = 34
MAX_GATES = 45


class Skip(Exception):
    """The conversion does not apply to the object at hand."""


def words(og: Any) -> dict[int, Any]:
    return {v: c.matrix for v, c in og.output_cliffords.items() if c != Clifford.I}


def og_map(og: Any) -> np.ndarray:
    d = conv.describe_og(og)
    w = words(og)
    m = ref.opengraph_map(d) * 2 ** (len(d["meas"]) / 2)
    return ref.kron_all([w.get(v, np.eye(2)) for v in d["out"]]) @ m


def frozen(x: Any) -> str:
    if isinstance(x, Pattern):
        return conv.freeze(x)
    if isinstance(x, Circuit):
        return repr(conv.describe_circuit(x))
    if isinstance(x, OpenGraph):
        return repr((conv.describe_og(x), sorted((v, c.name) for v, c in x.output_cliffords.items())))
    if isinstance(x, PauliFlow):
        return repr((frozen(x.og), sorted((v, sorted(s)) for v, s in x.correction_function.items()), [sorted(y) for y in x.partial_order_layers]))
    if isinstance(x, XZCorrections):
        return repr((frozen(x.og), *(sorted((v, sorted(s)) for v, s in c.items()) for c in (x.x_corrections, x.z_corrections)), [sorted(y) for y in x.partial_order_layers]))
    if isinstance(x, StandardizedPattern):
        return conv.freeze(x.to_pattern())
    raise AssertionError(type(x))


def kind_of(x: Any) -> str:
    for k, t in (("circuit", Circuit), ("pattern", Pattern), ("std", StandardizedPattern), ("og", OpenGraph), ("flow", PauliFlow), ("xz", XZCorrections)):
        if isinstance(x, t):
            return k
    raise AssertionError(type(x))


class Chain:
    def __init__(self, obj: Any, want: np.ndarray, picks: list[int], info: Info) -> None:
        self.obj = obj
        self.want = want
        self.picks = picks
        self.info = info
        self.done: list[str] = []
        self.left: list[tuple[str, Any, str]] = []

    # ------------------------------------------------------------------ reading out
    def verify(self) -> None:
        x, what = self.obj, " -> ".join(self.done)
        if isinstance(x, Circuit):
            d = conv.describe_circuit(x)
            got, rest = ref.circuit_map(d["w"], d["ops"])
            check(rest == list(range(d["w"])), f"{what}: measurements")
        elif isinstance(x, Pattern):
            x.check_runnability()
            got = deterministic_map(conv.describe(x), self.picks, self.info, what, limit_bits=3)
        elif isinstance(x, StandardizedPattern):
            got = deterministic_map(conv.describe(x.to_pattern()), self.picks, self.info, what, limit_bits=2)
        else:
            og = x if isinstance(x, OpenGraph) else x.og
            if og is not x:
                x.check_well_formed()
            got = og_map(og)
        check(got.shape == self.want.shape, lambda: f"{what}: map of shape {got.shape} instead of {self.want.shape}")
        check(ref.same_up_to_phase(got, self.want, 1e-6), lambda: f"{what}: {x} implements\n{np.round(got, 4).tolist()}\ninstead of\n{np.round(self.want, 4).tolist()}")
        for step, o, text in self.left:
            check(frozen(o) == text, lambda: f"{what}: the object left behind by {step} changed from\n{text}\nto\n{frozen(o)}")

    def size(self) -> int:
        x = self.obj
        if isinstance(x, Circuit):
            return sum({"CCX": 20, "RZZ": 4, "SWAP": 6, "CNOT": 2}.get(i.kind.name, 2) for i in x.instruction) // 2
        if isinstance(x, Pattern):
            return sum(c.kind == command.CommandKind.M for c in x)
        if isinstance(x, StandardizedPattern):
            return len(x.m_list)
        return len((x if isinstance(x, OpenGraph) else x.og).measurements)

    # ------------------------------------------------------------------ one step
    def step(self, code: int, arg: int, extra: Any) -> None:
        ops = OPS[kind_of(self.obj)]
        name, fn = ops[code % len(ops)]
        before = self.obj
        text = frozen(before)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = fn(self, self.obj, arg, extra)
        except Skip as e:
            if str(e):
                self.info.label(f"not applicable: {name} ({e})")
            return
        check(frozen(before) == text, lambda: f"{name} changed the object it was applied to from\n{text}\nto\n{frozen(before)}")
        self.left.append((name, before, text))
        self.left = self.left[-4:]
        self.obj = got
        self.done.append(name)
        self.verify()


def grow(c: Chain) -> None:
    if c.size() > MAX_MEAS // 2:
        raise Skip


# -------------------------------------------------------------------------- circuits


def circ_of(extra: Any, w: int) -> tuple[Circuit, np.ndarray]:
    """Further gates, on w qubits."""
    if w == 0:
        raise Skip
    q = Circuit(w)
    ops = []
    for o in extra:
        n = {"CNOT": 2, "CZ": 2, "SWAP": 2, "RZZ": 2}.get(o[0], 1)
        if n == 1:
            ops.append([o[0], o[1] % w, *o[3:]])
        elif w > 1:
            a = o[1] % w
            b = (a + 1 + o[2] % (w - 1)) % w
            ops.append([o[0], a, b, *o[3:]])
    for o in ops:
        conv.add_gate(q, o)
    return q, ref.circuit_map(w, ops)[0]


def copy_circuit(q: Circuit) -> Circuit:
    return Circuit(q.width, instr=list(q.instruction))


def q_transpile(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    if c.size() > MAX_MEAS:
        raise Skip("too large")
    return q.transpile(transpile_swaps=arg % 3 != 0).pattern


def q_flow(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    if c.size() > MAX_MEAS:
        raise Skip("too large")
    return q.transpile_to_causalflow().flow


def q_jcz(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    if c.size() > MAX_MEAS:
        raise Skip("too large")
    return Circuit(q.width, instr=list(instructions_to_jcz(q.instruction)))


def q_swaps(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    r = copy_circuit(q)
    res = transpile_swaps(r, copy=arg % 2 == 0)
    perm = res.extract_output_node_indices()  # qubit i of q is qubit perm[i] of the new circuit
    inv = [perm.index(i) for i in range(q.width)]
    c.want = c.want.reshape((2,) * q.width + (-1,)).transpose([*inv, q.width]).reshape(c.want.shape)
    return res.circuit


def q_append(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    grow(c)
    r = copy_circuit(q)
    more, m = circ_of(extra, q.width)
    r.extend(more.instruction)
    c.want = m @ c.want
    return r


def q_qasm(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    if any(i.kind.name == "RZZ" for i in q.instruction):
        raise Skip  # recorded under C30
    return OpenQASMParser().parse_str(circuit_to_qasm3(q, transpile=True))


def q_angles(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    return q.apply_angle(lambda a: a + 2 * (arg % 3 - 1), copy=True)


def q_parameter(c: Chain, q: Circuit, arg: int, extra: Any) -> Any:
    """Replace every angle by an affine expression of one parameter, and the parameter by its value."""
    p = Placeholder("alpha")
    val = (arg % 7) / 4
    r = q.apply_angle(lambda a: p + (a - val), copy=True)
    return r.replace_parameter(p, val)


OPS: dict[str, list[tuple[str, Callable[..., Any]]]] = {}
OPS["circuit"] = [
    ("transpile", q_transpile), ("transpile", q_transpile), ("transpile_to_causalflow", q_flow), ("transpile_to_causalflow", q_flow), ("instructions_to_jcz", q_jcz),
    ("transpile_j_to_rzh", lambda c, q, a, e: q.transpile_j_to_rzh()), ("transpile_swaps", q_swaps), ("append", q_append),
    ("qasm", q_qasm), ("apply_angle", q_angles), ("parameter", q_parameter),
]


# -------------------------------------------------------------------------- patterns


def in_place(f: Callable[[Pattern], Any]) -> Callable[..., Any]:
    def fn(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
        q = p.copy()
        f(q)
        return q
    return fn


def p_compose(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    grow(c)
    n = len(p.output_nodes)
    if n == 0 or any(x.kind == command.CommandKind.C for x in p):
        raise Skip  # (Cliffords before entanglement cannot be standardized)
    more, m = circ_of(extra, n)
    q = more.transpile().pattern
    r, mapping = p.compose(q, dict(zip(q.input_nodes, p.output_nodes)))
    check(r.output_nodes == [mapping[o] for o in q.output_nodes], "compose: outputs in another order")
    c.want = m @ c.want
    return r


def p_prepend(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    grow(c)
    n = len(p.input_nodes)
    if n == 0:
        raise Skip
    more, m = circ_of(extra, n)
    q = more.transpile().pattern
    r, mapping = q.compose(p, dict(zip(p.input_nodes, q.output_nodes)))
    check(r.output_nodes == [mapping[o] for o in p.output_nodes], "compose: outputs in another order")
    c.want = c.want @ m
    return r


def p_reorder(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    outs = p.output_nodes
    n = len(outs)
    if n < 2:
        raise Skip
    k = 1 + arg % (n - 1)
    q = p.copy()
    q.reorder_output_nodes(outs[k:] + outs[:k])
    c.want = c.want.reshape((2,) * n + (-1,)).transpose([*range(k, n), *range(k), n]).reshape(c.want.shape)
    return q


def p_reindex(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    nodes = sorted(p.nodes())
    k = arg % (len(nodes) + 1)
    return p.reindex(dict(zip(nodes, nodes[k:] + nodes[:k])), copy=True)


def p_cliffords(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    if len(p.nodes()) > 20:
        raise Skip
    return p.remove_local_clifford_commands(copy=True)


def plain(p: Pattern) -> None:
    if any(x.kind == command.CommandKind.N and x.state != BasicStates.PLUS for x in p):
        raise Skip("other preparations")


def to_flow(name: str) -> Callable[..., Any]:
    def fn(c: Chain, x: Any, arg: int, extra: Any) -> Any:
        if isinstance(x, Pattern):
            plain(x)
        if name != "to_pauliflow":
            ms = [m for m in (conv.describe(x)["cmds"] if isinstance(x, Pattern) else [])]
            has_pauli = any(m[0] == "M" and m[2][0] == "P" for m in ms) if isinstance(x, Pattern) else any(isinstance(m, PauliMeasurement) for m in x.og.measurements.values())
            if has_pauli:
                x = x.to_bloch()
        try:
            return getattr(x, name)()
        except FlowError as e:
            raise Skip("no such flow") from e
    return fn


def p_og(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    plain(p)
    return p.to_opengraph()


def p_xz(c: Chain, p: Pattern, arg: int, extra: Any) -> Any:
    plain(p)
    return p.to_xzcorrections()


OPS["pattern"] = [
    ("standardize", in_place(lambda p: p.standardize())), ("shift_signals", in_place(lambda p: p.shift_signals())), ("shift_signals mc", in_place(lambda p: p.shift_signals(method="mc"))),
    ("infer_pauli_measurements", in_place(lambda p: p.infer_pauli_measurements())), ("perform_pauli_pushing", in_place(lambda p: p.perform_pauli_pushing())),
    ("remove_pauli_measurements", in_place(lambda p: p.remove_pauli_measurements())), ("infer and remove", in_place(lambda p: (p.infer_pauli_measurements(), p.remove_pauli_measurements()))),
    ("minimize_space", in_place(lambda p: p.minimize_space())), ("parallelize_pattern", in_place(lambda p: p.parallelize_pattern())), ("blochify", in_place(lambda p: p.blochify())),
    ("remove_useless_domains", lambda c, p, a, e: optimization.remove_useless_domains(p)), ("single_qubit_domains", lambda c, p, a, e: optimization.single_qubit_domains(p)),
    ("remove_local_clifford_commands", p_cliffords), ("reindex", p_reindex), ("reorder_output_nodes", p_reorder), ("compose", p_compose), ("prepend", p_prepend),
    ("from_pattern", lambda c, p, a, e: StandardizedPattern.from_pattern(p)), ("to_opengraph", p_og), ("to_opengraph", p_og), ("to_opengraph", p_og), ("to_xzcorrections", p_xz), ("to_xzcorrections", p_xz),
    ("to_causalflow", to_flow("to_causalflow")), ("to_gflow", to_flow("to_gflow")), ("to_pauliflow", to_flow("to_pauliflow")),
]


def s_plain(f: Callable[[StandardizedPattern], Any]) -> Callable[..., Any]:
    def fn(c: Chain, s: StandardizedPattern, arg: int, extra: Any) -> Any:
        plain(s.to_pattern())
        return f(s)
    return fn


OPS["std"] = [
    ("to_pattern", lambda c, s, a, e: s.to_pattern()), ("to_space_optimal_pattern", lambda c, s, a, e: s.to_space_optimal_pattern()), ("std.perform_pauli_pushing", lambda c, s, a, e: s.perform_pauli_pushing()),
    ("std.minimize_space", lambda c, s, a, e: s.minimize_space()), ("std.to_opengraph", s_plain(lambda s: s.to_opengraph())), ("std.to_xzcorrections", s_plain(lambda s: s.to_xzcorrections())),
    ("std.to_bloch", lambda c, s, a, e: s.to_bloch()),
]


# -------------------------------------------------------------------------- open graphs, flows, corrections


def exists(og: Any, kind: str) -> bool | None:
    d = conv.describe_og(og)
    return G.of(d).find(kind) is not None if len(d["nodes"]) <= 20 else None


def og_flow(kind: str, name: str) -> Callable[..., Any]:
    def fn(c: Chain, og: Any, arg: int, extra: Any) -> Any:
        if kind != "p" and any(isinstance(m, PauliMeasurement) for m in og.measurements.values()):
            og = og.to_bloch()
        there = exists(og, kind)
        f = getattr(og, name + "_or_none")()
        check(there is None or there is (f is not None), lambda: f"{name}: found {f}; there is one: {there}")
        if f is None:
            raise Skip("no such flow")
        return f
    return fn


def og_pattern(c: Chain, og: Any, arg: int, extra: Any) -> Any:
    there = exists(og, "p")
    try:
        p = og.to_pattern()
    except OpenGraphError as e:
        check(not there, "no pattern in spite of a flow")
        raise Skip("no flow") from e
    check(there is not False, "pattern although there is no flow")
    return p


def og_circuit(c: Chain, og: Any, arg: int, extra: Any) -> Any:
    if words(og) or og.output_cliffords or len(og.input_nodes) != len(og.output_nodes):
        raise Skip("Cliffords or isometry")
    there = exists(og, "p")
    try:
        q = og.to_circuit()
    except OpenGraphError as e:
        check(not there, "no circuit in spite of a flow")
        raise Skip("no flow") from e
    return q


def og_compose(c: Chain, og: Any, arg: int, extra: Any) -> Any:
    grow(c)
    n = len(og.output_nodes)
    if n == 0 or og.output_cliffords:
        raise Skip
    more, m = circ_of(extra, n)
    o2 = more.transpile().pattern.to_opengraph()
    mapping = dict(zip(o2.input_nodes, og.output_nodes))
    if any(og.graph.has_edge(mapping[a], mapping[b]) for a, b in o2.graph.edges if a in mapping and b in mapping):
        raise Skip
    if arg % 2:
        # custom names for the nodes of the second graph
        base = max(og.graph.nodes) + 1 + arg
        mapping.update({v: base + i for i, v in enumerate(sorted(o2.graph.nodes - mapping.keys()))})
    r, full = og.compose(o2, mapping)
    outs = [full[o] for o in o2.output_nodes]
    check(sorted(outs) == sorted(r.output_nodes) and list(r.input_nodes) == list(og.input_nodes), "compose: wrong inputs or outputs")
    w = m @ c.want
    perm = [outs.index(o) for o in r.output_nodes]
    c.want = w.reshape((2,) * n + (-1,)).transpose([*perm, n]).reshape(w.shape)
    return r


def og_parameter(c: Chain, og: Any, arg: int, extra: Any) -> Any:
    p = Placeholder("beta")
    val = (arg % 7) / 4

    def f(m: Any) -> Any:
        return BlochMeasurement(p + (m.angle - val), m.plane) if isinstance(m, BlochMeasurement) else m

    return og.map(f).with_parameter(p, val)


OPS["og"] = [
    ("og.to_pattern", og_pattern), ("og.to_pattern", og_pattern), ("to_circuit", og_circuit), ("to_circuit", og_circuit), ("og.to_causalflow", og_flow("c", "to_causalflow")), ("og.to_gflow", og_flow("g", "to_gflow")),
    ("og.to_pauliflow", og_flow("p", "to_pauliflow")), ("og.infer_pauli_measurements", lambda c, og, a, e: og.infer_pauli_measurements()), ("og.to_bloch", lambda c, og, a, e: og.to_bloch()), ("og.compose", og_compose),
    ("og.parameter", og_parameter),
]


def f_circuit(c: Chain, f: Any, arg: int, extra: Any) -> Any:
    if f.og.output_cliffords or len(f.og.input_nodes) != len(f.og.output_nodes):
        raise Skip("Cliffords or isometry")
    if not f.is_focused():
        try:
            f.extract_circuit()
        except ValueError:
            raise Skip("not focused") from None
        check(False, "circuit extracted from a flow that is not focused")
    return f.extract_circuit().to_circuit()


OPS["flow"] = [("to_xzcorrections", lambda c, f, a, e: f.to_xzcorrections()), ("to_xzcorrections", lambda c, f, a, e: f.to_xzcorrections()), ("extract_circuit", f_circuit), ("extract_circuit", f_circuit), ("flow.og", lambda c, f, a, e: f.og)]


def xz_pattern(c: Chain, xz: Any, arg: int, extra: Any) -> Any:
    if arg % 2:
        return xz.to_pattern(total_measurement_order=xz.generate_total_measurement_order())
    return xz.to_pattern()


OPS["xz"] = [("xz.to_pattern", xz_pattern), ("xz.to_pattern", xz_pattern), ("xz.to_causalflow", to_flow("to_causalflow")), ("xz.to_gflow", to_flow("to_gflow")), ("xz.to_pauliflow", to_flow("to_pauliflow")),
             ("xz.to_bloch", lambda c, x, a, e: x.to_bloch()), ("xz.og", lambda c, x, a, e: x.og)]


# -------------------------------------------------------------------------- cases


def extra_gates() -> Any:
    ang = gen.angles(True)
    one = st.tuples(st.sampled_from(gen.GATES1), st.integers(0, 2), st.integers(0, 1)).map(lambda t: [t[0], t[1], t[2]])
    rot = st.tuples(st.sampled_from(gen.GATESR), st.integers(0, 2), st.integers(0, 1), ang).map(list)
    two = st.tuples(st.sampled_from(gen.GATES2), st.integers(0, 2), st.integers(0, 1)).map(list)
    rzz = st.tuples(st.just("RZZ"), st.integers(0, 2), st.integers(0, 1), ang).map(list)
    return st.lists(st.one_of(one, rot, two, rzz), min_size=1, max_size=3)


@st.composite
def chains(draw: Any, large: bool = False) -> dict[str, Any]:
    start = draw(st.sampled_from(["circuit", "circuit", "pattern", "og"]))
    if large:
        obj = draw(big.seeded(big.circuit, 6, 18, min_width=2, max_width=4, ccx=0) if start == "circuit" else big.seeded(big.det, 6, 20) if start == "pattern" else c24.graphs(large=True))
    elif start == "circuit":
        obj = draw(gen.circuits(max_width=3, max_ops=6, ccx_limit=0, pauli_bias=draw(st.booleans()), min_ops=1))
    elif start == "pattern":
        obj = draw(gen.det_patterns(min_meas=2, max_meas=6))
    else:
        obj = draw(st.one_of(c21.graphs(), c24.graphs(), c24.graphs()))
    steps = draw(st.lists(st.tuples(st.integers(0, 25 * 12 * 11 * 7), st.integers(0, 30), extra_gates()).map(list), min_size=4, max_size=12))
    return {"start": start, "obj": obj, "steps": steps, "picks": draw(gen.picks())}


def oracle(case: Any, info: Info) -> None:
    d = case["obj"]
    if case["start"] == "circuit":
        obj: Any = conv.circuit(d)
        want = ref.circuit_map(d["w"], d["ops"])[0]
    elif case["start"] == "pattern":
        obj = conv.pattern(d)
        ms = ref.measured(d["cmds"])
        want = ref.run_branch(d, dict.fromkeys(ms, 0)) * 2 ** (len(ms) / 2)
    else:
        obj = c21.build(d)
        want = c21.reference_map(d) * 2 ** (len(d["meas"]) / 2)
    c = Chain(obj, want, case["picks"], info)
    c.done.append(case["start"])
    kinds = [kind_of(obj)]
    for code, arg, extra in case["steps"]:
        c.step(code, arg, extra)
        if kind_of(c.obj) != kinds[-1]:
            kinds.append(kind_of(c.obj))
    info.label(*{f"op:{o}" for o in c.done}, f"{min(len(kinds) - 1, 6)} changes of representation")
    info.nt(len(kinds) >= 3 and len(c.done) >= 4)


SUBS = [
    Sub("chains", chains, oracle, 4500, 90000, shards=8, rule="at least two changes of representation and three steps"),
    Sub("large chains", lambda: chains(large=True), oracle, 100, 3000, shards=8, rule="as chains, larger objects"),
]
