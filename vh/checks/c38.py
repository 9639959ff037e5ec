"""C38: requests change nothing but their target, and answer the same when repeated.

A generated history of requests runs on a pool of objects of many kinds (circuits, patterns, standardized patterns, open
graphs, flows, corrections, extraction results, state vectors, density matrices, graph states, channels, GF(2) matrices,
plus the arrays and mappings given as arguments), most of them obtained from one another.  Before and after each request
every object of the pool is read out as plain data.  A query, conversion or copying variant must change none of them and
give the same answer twice; a modification must change its target only.
"""
from __future__ import annotations

import enum
import warnings
from typing import Any, Callable

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from graphix import command, optimization
from graphix._linalg import MatGF2
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.channels import KrausChannel
from graphix.circ_ext.extraction import ExtractionResult
from graphix.clifford import Clifford
from graphix.extraction import graph_to_fusion_network
from graphix.flow.core import PauliFlow, XZCorrections
from graphix.graphsim import GraphState
from graphix.measurements import Measurement
from graphix.noise_models.depolarising import DepolarisingNoiseModel
from graphix.opengraph import OpenGraph
from graphix.optimization import StandardizedPattern
from graphix.parameter import Placeholder
from graphix.pattern import Pattern, shift_outcomes
from graphix.qasm3_exporter import circuit_to_qasm3, pattern_to_qasm3
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.simulator import DefaultMeasureMethod
from graphix.states import BasicStates
from graphix.transpiler import Circuit, instructions_to_jcz, transpile_swaps
from vh import conv, gen, ref
from vh.checks import c24
from vh.core import Fail, HarnessError, Info, Sub, check
from vh.util import unitary_from

NODES_MAX = 14


class Skip(Exception):
    pass


# ------------------------------------------------------------------ reading out


def fp(x: Any) -> Any:
    """Plain, comparable reading of an object."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, enum.Enum):
        return str(x)
    if isinstance(x, (float, complex, np.generic)):
        z = complex(x)
        return (round(z.real, 9) + 0.0, round(z.imag, 9) + 0.0)
    if isinstance(x, Pattern):
        return ("pattern", conv.freeze(x), x.n_node)
    if isinstance(x, Circuit):
        return ("circuit", repr(x.instruction), x.width, tuple(sorted(x.active_qubits)))
    if isinstance(x, OpenGraph):
        return ("og", fp(x.graph), tuple(x.input_nodes), tuple(x.output_nodes), repr(sorted(x.measurements.items(), key=lambda t: t[0])), fp({v: c for v, c in x.output_cliffords.items()}))
    if isinstance(x, PauliFlow):
        return (type(x).__name__, fp(x.og), fp(x.correction_function), fp(x.partial_order_layers))
    if isinstance(x, XZCorrections):
        return ("xz", fp(x.og), fp(x.x_corrections), fp(x.z_corrections), fp(x.partial_order_layers))
    if isinstance(x, StandardizedPattern):
        return ("std", fp(x.to_pattern()))
    if isinstance(x, ExtractionResult):
        return ("er", fp(x.pexp_dag.pauli_exponentials), fp(x.pexp_dag.partial_order_layers), fp(x.pexp_dag.output_nodes), repr(x.clifford_map))
    if isinstance(x, GraphState):
        return ("gs", tuple(sorted((v, fp(dict(d))) for v, d in x.nodes(data=True))), tuple(sorted(tuple(sorted(e)) for e in x.edges)))
    if isinstance(x, nx.DiGraph):
        return ("dag", tuple(sorted(x.nodes)), tuple(sorted(x.edges)))
    if isinstance(x, nx.Graph):
        return ("graph", tuple(sorted(x.nodes)), tuple(sorted(tuple(sorted(e)) for e in x.edges)))
    if isinstance(x, (Statevector, DensityMatrix)):
        return (type(x).__name__, x.nqubit, fp(np.array(x.flatten())))
    if isinstance(x, KrausChannel):
        return ("channel", tuple((fp(k.coef), fp(k.operator)) for k in x))
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        if a.dtype.kind in "fc":
            a = np.round(a, 9) + 0.0
        return ("array", a.shape, str(a.dtype), a.tobytes() if a.dtype != object else repr(a.tolist()))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(k), fp(v)) for k, v in x.items()), key=lambda t: t[0])))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, map(fp, x)))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if type(x) in (list, tuple) else "tuple", tuple(map(fp, x)))
    text = repr(x)
    if " at 0x" in text:
        raise HarnessError(f"no reading for {text}")
    return text


KINDS: list[tuple[str, Any]] = [("circuit", Circuit), ("pattern", Pattern), ("og", OpenGraph), ("flow", PauliFlow), ("xz", XZCorrections), ("std", StandardizedPattern),
                                ("er", ExtractionResult), ("gs", GraphState), ("sv", Statevector), ("dm", DensityMatrix), ("channel", KrausChannel), ("gf2", MatGF2), ("map", dict), ("array", np.ndarray)]


def kind_of(x: Any) -> str | None:
    return next((k for k, t in KINDS if isinstance(x, t)), None)


class World:
    def __init__(self, case: Any, info: Info) -> None:
        self.case = case
        self.info = info
        self.pool: list[tuple[str, Any, Any]] = []
        self.done: list[str] = []
        self.modified = 0
        self.answer: Any = None

    def add(self, x: Any) -> None:
        k = kind_of(x)
        if k is None or any(o is x for _, o, _ in self.pool) or too_large(x):
            return
        same = [i for i, (k2, _, _) in enumerate(self.pool) if k2 == k]
        if len(same) >= 4:
            self.pool.pop(same[1])
        self.pool.append((k, x, fp(x)))

    def refresh(self) -> None:
        """Take the present readings for the reference."""
        self.pool = [(k, o, fp(o)) for k, o, _ in self.pool]

    def of(self, kind: str, i: int) -> Any:
        xs = [x for k, x, _ in self.pool if k == kind]
        if not xs:
            raise Skip
        return xs[i % len(xs)]

    def step(self, i: int, j: int, arg: int) -> None:
        kind, x, _ = self.pool[i % len(self.pool)]
        table = [(n, f, False) for n, f in PURE.get(kind, [])] + [(n, f, True) for n, f in CHANGE.get(kind, [])]
        if not table:
            return
        name, fn, changes = table[j % len(table)]
        what = f"{' , '.join(self.done[-6:])} , {kind}.{name}"
        answers = []
        for _ in range(1 if changes else 2):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = fn(self, x, arg)
                answers.append(fp(got))
            except Skip:
                return
            except (Fail, HarnessError):
                raise
            except Exception as e:  # noqa: BLE001  (what may be refused is the matter of other properties)
                got = None
                self.info.label(f"refused: {kind}.{name}: {type(e).__name__}")
                answers.append(("raised", type(e).__name__))
        for n, (k, o, before) in enumerate(self.pool):
            now = fp(o)
            if changes and o is x:
                self.pool[n] = (k, o, now)
                self.modified += now != before
            else:
                check(now == before, lambda: f"{what}: {'another' if o is not x else 'the'} {k} changed from\n{before}\nto\n{now}")  # noqa: B023
        check(len(set(map(repr, answers))) == 1, lambda: f"{what}: two answers to the same request:\n{answers[0]}\n{answers[-1]}")
        self.answer = answers[0]
        self.done.append(f"{kind}.{name}")
        for r in got if isinstance(got, (list, tuple)) and len(got) <= 4 else [got]:
            self.add(r)


def too_large(x: Any) -> bool:
    if isinstance(x, Pattern):
        return x.n_node > NODES_MAX or len(x) > 60
    if isinstance(x, Circuit):
        return len(x.instruction) > 40
    if isinstance(x, OpenGraph):
        return len(x.graph) > NODES_MAX
    if isinstance(x, (PauliFlow, XZCorrections)):
        return len(x.og.graph) > NODES_MAX
    if isinstance(x, StandardizedPattern):
        return len(x.m_list) > NODES_MAX
    if isinstance(x, (Statevector, DensityMatrix)):
        return x.nqubit > 4
    if isinstance(x, GraphState):
        return len(x) > 6
    if isinstance(x, np.ndarray):
        return x.size > 64
    return False


# ------------------------------------------------------------------ requests


def rng(arg: int) -> np.random.Generator:
    return np.random.default_rng(arg)


def need(cond: Any) -> None:
    if not cond:
        raise Skip


def simulable(p: Pattern) -> None:
    need(len(p.input_nodes) <= 4)
    p.check_runnability()
    need(p.max_space() <= 5 and not p.is_parameterized())


def sim(backend: str, noisy: bool = False) -> Callable[..., Any]:
    def fn(w: World, p: Pattern, arg: int) -> Any:
        simulable(p)
        need(backend != "densitymatrix" or p.max_space() <= 4)
        kw: dict[str, Any] = {"noise_model": DepolarisingNoiseModel(measure_error_prob=0.2, x_error_prob=0.1)} if noisy else {}
        m = DefaultMeasureMethod()
        state = p.simulate(backend=backend, rng=rng(arg), measure_method=m, **kw)
        return state, dict(m.results)
    return fn


def sim_given(w: World, p: Pattern, arg: int) -> Any:
    """Given outcomes, measurement results and an array as the input state; all of them belong to the pool."""
    simulable(p)
    n = len(p.input_nodes)
    psi = next((a for k, a, _ in w.pool if k == "array" and a.shape == (2**n,) and abs(np.linalg.norm(a) - 1) < 1e-9), None)
    if psi is None:
        psi = np.zeros(2**n, dtype=complex)
        psi[arg % 2**n] = 1
        w.add(psi)
    known = {v: k % 2 for k, v in enumerate(sorted(p.nodes()))}
    if arg % 3 == 0:
        # an incomplete prescription, the rest being left to another selector
        known = dict(list(known.items())[arg % 2 :: 2])
        sel: Any = FixedBranchSelector(known, default=ConstBranchSelector(arg % 4 // 2))
    else:
        sel = FixedBranchSelector(known) if arg % 2 else ConstBranchSelector(arg % 4 // 2)
    given: dict[int, int] = {}
    m = DefaultMeasureMethod(given)
    before = dict(known)
    state = p.simulate(input_state=psi, branch_selector=sel, measure_method=m)
    check(known == before, "the prescription of the branch selector was changed")
    check(given == {}, "the given results were changed")
    return state, dict(m.results)


def compose(w: World, p: Pattern, arg: int) -> Any:
    q = w.of("pattern", arg)
    need(not any(c.kind == command.CommandKind.C for c in p))
    m = dict(zip(q.input_nodes, p.output_nodes))
    w.add(m)
    return p.compose(q, m)


def copying(name: str, **kw: Any) -> Callable[..., Any]:
    return lambda w, p, arg: getattr(p, name)(copy=True, **kw)


def call(name: str, *args: Any, **kw: Any) -> Callable[..., Any]:
    return lambda w, x, arg: getattr(x, name)(*args, **kw)


def changing(name: str, *args: Any, **kw: Any) -> Callable[..., Any]:
    def fn(w: World, x: Any, arg: int) -> None:
        getattr(x, name)(*args, **kw)
    return fn


def rebuilt(w: World, p: Pattern, arg: int) -> Pattern:
    """A pattern from the commands of another, through containers modified afterwards."""
    ins, outs, cmds = p.input_nodes, p.output_nodes, list(p)
    q = Pattern(input_nodes=ins, cmds=cmds, output_nodes=outs)
    ins.append(-7)
    outs.append(-7)
    cmds.clear()
    return q


def containers(w: World, p: Pattern, arg: int) -> Any:
    """Containers handed out by queries belong to the caller."""
    got = [p.nodes(), p.input_nodes, p.output_nodes, p.measurement_commands(), p.isolated_nodes(), p.space_list(), p.clifford_commands(), *([p.correction_commands()] if p.is_standard() else [])]
    text = fp(got[:4])
    for x in got:
        x.clear()
    return text


def mapped(w: World, p: Pattern, arg: int) -> Any:
    m = {v: v + 1 + arg for v in p.nodes()}
    w.add(m)
    return p.reindex(m, copy=True)


def connected(w: World, p: Pattern, arg: int) -> Any:
    prepared = set(sorted(p.nodes())[: arg % 5])
    before = set(prepared)
    return [p.connected_nodes(v) for v in sorted(p.nodes())], [sorted(p.connected_nodes(v, prepared)) for v in sorted(p.nodes())], prepared == before


def shifted(w: World, p: Pattern, arg: int) -> Any:
    q = p.copy()
    sig = q.shift_signals(method="direct" if arg % 2 else "mc")
    out = {v: i % 2 for i, v in enumerate(c.node for c in p if c.kind == command.CommandKind.M)}
    w.add(sig)
    w.add(out)
    return q, sig, shift_outcomes(out, sig)


def parameter(w: World, x: Any, arg: int) -> Any:
    """Angles replaced by expressions of a parameter, which is then replaced by a value."""
    a, b = Placeholder("a"), Placeholder("b")
    values = {a: 0.25, b: 0.5}
    w.add(values)
    if isinstance(x, Circuit):
        y = x.apply_angle(lambda t: a + t, copy=True)
    else:
        y = x.map(lambda m: m.__class__((a if arg % 2 else b) + m.angle, m.plane) if hasattr(m, "plane") else m)
    before = repr(y)
    if isinstance(x, OpenGraph):
        z = y.with_parameters(values)
    else:
        t = y.copy() if isinstance(y, Pattern) else Circuit(y.width, instr=list(y.instruction))
        t.replace_parameters(values)
        z = t
    check(repr(y) == before, lambda: f"replacing parameters in a copy changed\n{before}\nto\n{y!r}")
    return z


def fusion(g: Any) -> Any:
    return [(c.cltype, fp(c.graph)) for c in graph_to_fusion_network(GraphState(nodes=list(g.nodes), edges=list(g.edges)) if not isinstance(g, GraphState) else g)]


def nclone(w: World, x: Any, arg: int) -> Any:
    return x.copy()


PURE: dict[str, list[tuple[str, Callable[..., Any]]]] = {}
CHANGE: dict[str, list[tuple[str, Callable[..., Any]]]] = {}

PURE["pattern"] = [
    ("copy", nclone), ("copy", nclone), ("copy", nclone), ("rebuilt", rebuilt), ("rebuilt", rebuilt), ("containers", containers), ("to_opengraph", call("to_opengraph")), ("to_xzcorrections", call("to_xzcorrections")), ("to_causalflow", call("to_causalflow")),
    ("to_gflow", call("to_gflow")), ("to_pauliflow", call("to_pauliflow")), ("from_pattern", lambda w, p, a: StandardizedPattern.from_pattern(p)), ("from_pattern", lambda w, p, a: StandardizedPattern.from_pattern(p)), ("standardize()", lambda w, p, a: optimization.standardize(p)),
    ("remove_useless_domains", lambda w, p, a: optimization.remove_useless_domains(p)), ("single_qubit_domains", lambda w, p, a: optimization.single_qubit_domains(p)),
    ("minimize_space", copying("minimize_space")), ("blochify", copying("blochify")), ("infer", copying("infer_pauli_measurements")), ("push", copying("perform_pauli_pushing")), ("remove", copying("remove_pauli_measurements")),
    ("cliffords", copying("remove_local_clifford_commands")), ("reindex", mapped), ("compose", compose), ("to_bloch", call("to_bloch")), ("map", call("map", lambda m: m)),
    ("queries", lambda w, p, a: (p.max_space(), p.space_list(), p.is_standard(), p.is_standard(strict=True), p.max_degree(), sorted(p.nodes()), sorted(p.isolated_nodes()), p.n_node, len(p))),
    ("layers", lambda w, p, a: [sorted(x) for x in p.partial_order_layers()]), ("print", lambda w, p, a: (str(p), repr(p), p.to_ascii(), p.to_latex(), p.to_unicode(left_to_right=True))),
    ("simulate", sim("statevector")), ("simulate dm", sim("densitymatrix")), ("simulate tn", lambda w, p, a: (simulable(p), p.simulate(backend="tensornetwork", branch_selector=ConstBranchSelector(0)).to_statevector())[1]),
    ("simulate noisy", sim("densitymatrix", True)), ("simulate given", sim_given), ("simulate given", sim_given), ("qasm", lambda w, p, a: pattern_to_qasm3(p)), ("shift_signals", shifted), ("parameter", parameter),
    ("sort", lambda w, p, a: [repr(c) for c in p.sort_measurement_commands(list(reversed(list(p.measurement_commands()))))]), ("equal", lambda w, p, a: (p == w.of("pattern", a), p == p.copy())),
    ("minimum", lambda w, p, a: p.check_runnability()),
]
CHANGE["pattern"] = [
    ("standardize", changing("standardize")), ("shift_signals", changing("shift_signals")), ("shift_signals mc", changing("shift_signals", method="mc")), ("minimize_space", changing("minimize_space")), ("parallelize_pattern", changing("parallelize_pattern")),
    ("blochify", changing("blochify")), ("infer", changing("infer_pauli_measurements")), ("push", changing("perform_pauli_pushing")), ("remove", changing("remove_pauli_measurements")), ("cliffords", changing("remove_local_clifford_commands")),
    ("reindex", lambda w, p, a: p.reindex({v: v + 3 for v in p.nodes()}) and None), ("reorder outputs", lambda w, p, a: p.reorder_output_nodes(p.output_nodes[::-1])), ("reorder inputs", lambda w, p, a: p.reorder_input_nodes(p.input_nodes[::-1])),
    ("remove_input_nodes", changing("remove_input_nodes")), ("connected", connected),  # standardizes in place
     ("add", lambda w, p, a: p.add(command.N(max(p.nodes(), default=0) + 1))), ("extend", lambda w, p, a: p.extend([command.C(v, Clifford.H) for v in p.output_nodes])),
    ("replace", lambda w, p, a: p.replace(list(w.of("pattern", a)), input_nodes=w.of("pattern", a).input_nodes)), ("clear", lambda w, p, a: p.clear() if a % 4 == 0 else None),
]


def copied(q: Circuit) -> Circuit:
    return Circuit(q.width, instr=list(q.instruction))


def q_rebuilt(w: World, q: Circuit, arg: int) -> Circuit:
    instr = list(q.instruction)
    r = Circuit(q.width, instr=instr)
    instr.clear()
    return r


def q_add(w: World, q: Circuit, arg: int) -> None:
    need(q.active_qubits)
    t = sorted(q.active_qubits)
    conv.add_gate(q, [["H", t[0]], ["RZ", t[-1], 0.3], ["S", t[arg % len(t)]], ["CZ", t[0], t[-1]] if len(t) > 1 else ["X", t[0]]][arg % 4])


PURE["circuit"] = [
    ("rebuilt", q_rebuilt), ("rebuilt", q_rebuilt), ("transpile", lambda w, q, a: q.transpile(transpile_swaps=a % 2 == 0).pattern), ("transpile", lambda w, q, a: q.transpile().pattern), ("transpile_to_causalflow", lambda w, q, a: q.transpile_to_causalflow().flow),
    ("simulate", lambda w, q, a: (q.simulate(rng=rng(a)).state, q.simulate(rng=rng(a)).classical_measures)), ("simulate dm", lambda w, q, a: q.simulate(backend="densitymatrix", rng=rng(a)).state),
    ("apply_angle", lambda w, q, a: q.apply_angle(lambda t: t + 0.5, copy=True)), ("transpile_swaps", lambda w, q, a: transpile_swaps(q, copy=True).circuit), ("transpile_j_to_rzh", lambda w, q, a: q.transpile_j_to_rzh()),
    ("transpile_measurements_to_z_axis", lambda w, q, a: q.transpile_measurements_to_z_axis()), ("qasm", lambda w, q, a: circuit_to_qasm3(q, transpile=True)), ("print", lambda w, q, a: (str(q), repr(q))), ("jcz", lambda w, q, a: list(instructions_to_jcz(q.instruction))),
    ("parameter", parameter),
]
CHANGE["circuit"] = [("add", q_add), ("add", q_add), ("apply_angle", lambda w, q, a: q.apply_angle(lambda t: t + 0.125) and None), ("transpile_swaps", lambda w, q, a: transpile_swaps(q) and None)]


def og_compose(w: World, og: Any, arg: int) -> Any:
    other = w.of("og", arg)
    m = dict(zip(other.input_nodes, og.output_nodes))
    w.add(m)
    return og.compose(other, m)


PURE["og"] = [
    ("to_pattern", call("to_pattern")), ("to_pattern", call("to_pattern")), ("to_causalflow", call("to_causalflow")), ("to_gflow", call("to_gflow")), ("to_pauliflow", call("to_pauliflow")), ("none", lambda w, o, a: o.to_pauliflow_or_none()), ("bloch none", lambda w, o, a: (o.to_bloch().to_causalflow_or_none(), o.to_bloch().to_gflow_or_none())), ("bloch gflow", lambda w, o, a: o.to_bloch().to_gflow()),
    ("to_circuit", call("to_circuit")), ("infer", call("infer_pauli_measurements")), ("to_bloch", call("to_bloch")), ("map", call("map", lambda m: m)), ("downcast", call("downcast_bloch")), ("compose", og_compose), ("parameter", parameter),
    ("queries", lambda w, o, a: ([sorted(o.neighbors({v})) for v in sorted(o.graph)], sorted(o.odd_neighbors(sorted(o.graph)[: a % 4])), o.isclose(w.of("og", a)), o.is_equal_structurally(w.of("og", a)))),
    ("graph state", lambda w, o, a: GraphState(nodes=list(o.graph.nodes), edges=list(o.graph.edges))), ("print", lambda w, o, a: repr(o) and None), ("fusion", lambda w, o, a: fusion(o.graph)),
]
PURE["flow"] = [
    ("to_xzcorrections", call("to_xzcorrections")), ("to_xzcorrections", call("to_xzcorrections")), ("extract_circuit", call("extract_circuit")), ("extract_circuit", call("extract_circuit")), ("queries", lambda w, f, a: (f.is_focused(), f.is_well_formed(), f.to_ascii(), f.to_unicode(multiline=True), f.to_latex())),
    ("labels", lambda w, f, a: [f.node_measurement_label(v) for v in f.correction_function]), ("strings", lambda w, f, a: f.extraction_pauli_strings if not callable(f.extraction_pauli_strings) else f.extraction_pauli_strings()),
]
PURE["xz"] = [
    ("to_pattern", call("to_pattern")), ("to_pattern", call("to_pattern")), ("to_pattern order", lambda w, x, a: x.to_pattern(total_measurement_order=x.generate_total_measurement_order())), ("to_causalflow", call("to_causalflow")), ("to_gflow", call("to_gflow")), ("to_pauliflow", call("to_pauliflow")),
    ("to_bloch", call("to_bloch")), ("queries", lambda w, x, a: (list(x.generate_total_measurement_order()), x.to_dag(), x.check_well_formed(), x.to_ascii(), x.to_latex(multiline=True))),
]
PURE["std"] = [
    ("to_pattern", call("to_pattern")), ("to_pattern", call("to_pattern")), ("to_space_optimal_pattern", call("to_space_optimal_pattern")), ("push", call("perform_pauli_pushing")), ("minimize_space", call("minimize_space")), ("to_opengraph", call("to_opengraph")),
    ("to_xzcorrections", call("to_xzcorrections")), ("to_bloch", call("to_bloch")), ("queries", lambda w, s, a: (s.max_space() if callable(s.max_space) else s.max_space, repr(s) and None)), ("map", call("map", lambda m: m)),
    ("layers", lambda w, s, a: [sorted(x) for x in s.partial_order_layers()]),
]
PURE["er"] = [("to_circuit", call("to_circuit")), ("to_circuit", call("to_circuit")), ("tableau", lambda w, e, a: e.clifford_map.to_tableau()), ("strings", lambda w, e, a: [np.array(p.pauli_string.to_tableau()) for p in e.pexp_dag.pauli_exponentials.values()])]


def s_op(w: World, arg: int, n: int) -> np.ndarray:
    """An operator on n qubits from the pool of arrays."""
    a = next((x for k, x, _ in w.pool if k == "array" and x.shape == (2**n, 2**n)), None)
    if a is None:
        r = np.random.default_rng(arg)
        a = unitary_from(r.integers(-3, 4, (2**n, 2**n)) + 1j * r.integers(-3, 4, (2**n, 2**n)))
        w.add(a)
    return a


def qubits(s: Any, arg: int, n: int) -> list[int]:
    need(s.nqubit >= n)
    return [(arg + i) % s.nqubit for i in range(n)]


def s_project(w: World, s: Any, arg: int) -> None:
    need(s.nqubit >= 2)
    v = ref.STATES[["PLUS", "MINUS", "ZERO", "ONE", "PLUS_I", "MINUS_I"][arg % 6]]
    op = np.outer(v, v.conj())
    rho = np.array(s.flatten())
    rho = np.outer(rho, rho.conj()) if rho.ndim == 1 else rho
    q = arg % s.nqubit
    need(abs(np.trace(ref.embed(op, [q], s.nqubit) @ rho.reshape(2**s.nqubit, -1))) > 1e-3)
    s.project_qubit(op, q)


DENSE_PURE: list[tuple[str, Callable[..., Any]]] = [
    ("clone", lambda w, s, a: type(s)(s)), ("clone", lambda w, s, a: type(s)(s)), ("clone", lambda w, s, a: type(s)(s)),
    ("expectation_single", lambda w, s, a: s.expectation_single(s_op(w, a, 1), qubits(s, a, 1)[0])), ("flatten", lambda w, s, a: np.array(s.flatten())), ("print", lambda w, s, a: (str(s), repr(s))),
]
DENSE_CHANGE: list[tuple[str, Callable[..., Any]]] = [
    ("evolve_single", lambda w, s, a: s.evolve_single(s_op(w, a, 1), qubits(s, a, 1)[0])), ("evolve", lambda w, s, a: s.evolve(s_op(w, a, 2), qubits(s, a, 2))), ("evolve 1", lambda w, s, a: s.evolve(s_op(w, a, 1), qubits(s, a, 1))),
    ("entangle", lambda w, s, a: s.entangle(tuple(qubits(s, a, 2)))), ("swap", lambda w, s, a: s.swap(tuple(qubits(s, a, 2)))), ("add_nodes", lambda w, s, a: s.add_nodes(1, BasicStates.PLUS_I) if s.nqubit < 4 else None),
    ("permute", lambda w, s, a: s.permute([(i + 1) % s.nqubit for i in range(s.nqubit)])), ("project_qubit", s_project),
]


def tensor(w: World, s: Any, arg: int) -> None:
    o = w.of(kind_of(s) or "", arg)
    need(o is not s and s.nqubit + o.nqubit <= 4)
    s.tensor(o)


def add_given(w: World, s: Any, arg: int) -> None:
    need(s.nqubit < 4)
    one = next((x for k, x, _ in w.pool if k == "array" and x.shape == (2,)), None)
    if one is None:
        one = np.array([0.6, 0.8j])
        w.add(one)
    s.add_nodes(1, one)


PURE["sv"] = [*DENSE_PURE, ("expectation_value", lambda w, s, a: s.expectation_value(s_op(w, a, 2), qubits(s, a, 2))), ("to_dict", lambda w, s, a: (s.to_dict(), s.to_prob_dict("LSB"))), ("to dm", lambda w, s, a: DensityMatrix(s)),
              ("compare", lambda w, s, a: (need(w.of("sv", a).nqubit == s.nqubit), s.fidelity(w.of("sv", a)), s.isclose(w.of("sv", a))))]
CHANGE["sv"] = [*DENSE_CHANGE, ("tensor", tensor), ("add given", add_given), ("ensure_capacity", lambda w, s, a: s.ensure_capacity(s.nqubit + 2))]
PURE["dm"] = [*DENSE_PURE, ("fidelity", lambda w, s, a: (need(w.of("sv", a).nqubit == s.nqubit), s.fidelity(w.of("sv", a)))[1])]


def apply_channel(w: World, s: Any, arg: int) -> None:
    c = w.of("channel", arg)
    s.apply_channel(c, qubits(s, arg, c.nqubit))


CHANGE["dm"] = [*DENSE_CHANGE, ("weaken", lambda w, s, a: s.evolve_single(np.diag([1, 0.5]).astype(complex), qubits(s, a, 1)[0]) if abs(np.trace(s.rho)) > 0.3 else None), ("tensor", tensor), ("add given", add_given), ("normalize", changing("normalize")), ("ptrace", lambda w, s, a: (need(s.nqubit > 1), s.ptrace(qubits(s, a, 1)))[1]), ("cnot", lambda w, s, a: s.cnot(tuple(qubits(s, a, 2)))),
                ("apply_channel", apply_channel), ("apply_channel", apply_channel)]
PURE["gs"] = [("copy", nclone), ("copy", nclone), ("to_statevector", call("to_statevector")), ("queries", lambda w, g, a: (sorted(g.isolated_nodes()), sorted(g.nodes), sorted(map(sorted, g.edges)))), ("fusion", lambda w, g, a: fusion(g)),
              ("rebuilt", lambda w, g, a: GraphState(nodes=g.nodes, edges=g.edges))]


def on_node(f: Callable[..., Any]) -> Callable[..., Any]:
    def fn(w: World, g: Any, arg: int) -> None:
        need(len(g))
        f(g, sorted(g.nodes)[arg % len(g)], arg)
    return fn


CHANGE["gs"] = [
    *((n, on_node(lambda g, v, a, n=n: getattr(g, n)(v))) for n in ("h", "s", "z", "local_complement", "flip_fill", "flip_sign", "advance")),
    *((n, on_node(lambda g, v, a, n=n: getattr(g, n)(v, choice=a % 2) if len(g) > 1 else None)) for n in ("measure_x", "measure_y", "measure_z")),
    ("vops", on_node(lambda g, v, a: g.apply_vops({v: list(Clifford)[a % 24]}))), ("extract_vops", lambda w, g, a: g.extract_vops() and None), ("edge", on_node(lambda g, v, a: g.remove_edge(*next(iter(g.edges))) if g.edges else None)),
]
PURE["gf2"] = [
    ("rank", lambda w, m, a: int(m.rank())), ("right_inverse", call("right_inverse")), ("null_space", call("null_space")), ("gauss_elimination", call("gauss_elimination")), ("row_reduction", call("row_reduction")), ("copy", lambda w, m, a: MatGF2(m)), ("copy", lambda w, m, a: m.copy()),
    ("mat_mul", lambda w, m, a: m.mat_mul(w.of("gf2", a))), ("add", lambda w, m, a: m ^ m),
]
CHANGE["gf2"] = [("gauss", changing("gauss_elimination", copy=False)), ("row", changing("row_reduction", copy=False)), ("flip", lambda w, m, a: m.__setitem__((a % m.shape[0], a % m.shape[1]), 1) if m.size else None)]
PURE["channel"] = [("rebuilt", lambda w, c, a: KrausChannel(list(c))), ("queries", lambda w, c, a: (c.nqubit, len(c), repr(c)))]


# ------------------------------------------------------------------ cases


@st.composite
def cases(draw: Any) -> dict[str, Any]:
    d: dict[str, Any] = {}
    focus = draw(st.sampled_from(["patterns", "patterns", "graphs", "states", "all"]))
    if focus in ("patterns", "all"):
        d["circuit"] = draw(gen.circuits(max_width=3, max_ops=5, ccx_limit=0, pauli_bias=True, measure=draw(st.integers(0, 3)) == 0))
        d["pattern"] = [draw(st.one_of(gen.det_patterns(min_meas=1, max_meas=5), gen.soups(max_active=4, max_total=7, max_steps=16)))]
    if focus in ("graphs", "all"):
        d["og"] = draw(c24.graphs())
    if focus in ("states", "all"):
        d["gs"] = draw(st.tuples(st.integers(1, 5), st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list), max_size=6)).map(list))
        d["sv"] = [draw(st.integers(0, 3)), draw(st.integers(0, 99))]
        d["gf2"] = [draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(0, 2**16 - 1))]
    d["steps"] = draw(st.lists(st.tuples(st.integers(0, 2**16), st.integers(0, 2**16), st.integers(0, 30)).map(list), min_size=6, max_size=22))
    return d


def world(case: Any, info: Info) -> World:
    """The objects a case starts from."""
    w = World(case, info)
    if "circuit" in case:
        w.add(conv.circuit(case["circuit"]))
    for d in case.get("pattern", []):
        w.add(conv.pattern(d))
    if "og" in case:
        w.add(conv.opengraph(case["og"]))
    if "gs" in case:
        n, edges = case["gs"]
        w.add(GraphState(nodes=list(range(n)), edges=[(a % n, b % n) for a, b in edges if a % n != b % n]))
    if "sv" in case:
        n, seed = case["sv"]
        r = np.random.default_rng(seed)
        v = r.normal(size=2**n) + 1j * r.normal(size=2**n)
        w.add(v / np.linalg.norm(v))
        w.add(Statevector(w.of("array", 0)))
        w.add(DensityMatrix(w.of("sv", 0)))
        k = unitary_from(r.integers(-3, 4, (2, 2)) + 1j * r.integers(-3, 4, (2, 2)))
        w.add(k)
        from graphix.channels import KrausData

        w.add(KrausChannel([KrausData(np.sqrt(0.3), k), KrausData(np.sqrt(0.7), np.eye(2))]))
    if "gf2" in case:
        a, b, bits = case["gf2"]
        w.add(MatGF2(np.array([(bits >> i) & 1 for i in range(a * b)], dtype=np.uint8).reshape(a, b)))
    if not w.pool:
        raise HarnessError("empty pool")
    return w


def oracle(case: Any, info: Info) -> None:
    w = world(case, info)
    for i, j, arg in case["steps"]:
        w.step(i, j, arg)
    info.label(*w.done)
    info.label(f"{min(w.modified, 5)} modifications")
    info.nt(len(w.done) >= 5 and w.modified >= 1 and len(w.pool) >= 3)


SUBS = [
    Sub("histories", cases, oracle, 4000, 80000, shards=8, rule="at least five requests, one of which modified its target, on a pool of at least three objects"),
]
