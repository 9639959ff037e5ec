"""C39: requests outside their documented domain are refused and change nothing.

Generated histories mix legal requests with requests that miss their domain by a little (an index out of range, a qubit
used twice or already measured, an operator of the wrong size, an order that is not a permutation, an inconsistent
mapping, a pattern that cannot run, options which exclude one another).  A model written from the documentation says
which is which: legal requests must be accepted; the others must raise and leave every object they were given as it was,
so that the history ends exactly like the one made of its legal requests.
"""
from __future__ import annotations

import warnings
from typing import Any, Callable

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from graphix._linalg import MatGF2
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.channels import KrausChannel, KrausData
from graphix.clifford import Clifford
from graphix import command
from graphix import instruction as ins
from graphix.command import CommandKind
from graphix.fundamentals import Axis
from graphix.graphsim import GraphState
from graphix.measurements import Measurement
from graphix.noise_models.depolarising import DepolarisingNoiseModel
from graphix.opengraph import OpenGraph
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.pattern import Pattern
from graphix.states import BasicStates
from graphix.transpiler import Circuit
from vh import conv, gen
from vh.checks.c11 import mutate, problems
from vh.checks.c38 import fp
from vh.core import Discard, Info, Sub, check
from vh.util import unitary_from


def attempt(what: str, legal: bool, call: Callable[[], Any], watch: list[Any], info: Info) -> Any:
    """Run the request; compare acceptance with the model, and the watched objects when it is refused."""
    before = [fp(x) for x in watch]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = call()
        except Exception as err:  # noqa: BLE001
            e = err
            check(not legal, lambda: f"{what}: refused although within its domain: {type(e).__name__}: {e}")
            for x, b in zip(watch, before, strict=True):
                check(fp(x) == b, lambda: f"{what}: refused ({type(e).__name__}: {e}) but changed its argument:\n{b}\n{fp(x)}")
            info.label(f"refused {what.split(' ')[0]}")
            return None
    check(legal, lambda: f"{what}: accepted although outside its domain")
    info.label(f"accepted {what.split(' ')[0]}")
    return r


def finish(accepted: int, refused: int, info: Info) -> None:
    info.nt(accepted >= 1 and refused >= 1)


# ------------------------------------------------------------------ states

SHAPES = [(2, 2), (4, 4), (8, 8), (3, 3), (2, 4), (1, 2), (1, 1), (4, 2)]


def operator(shape: tuple[int, int], seed: int) -> np.ndarray:
    r = np.random.default_rng(seed)
    m = r.integers(-3, 4, shape) + 1j * r.integers(-3, 4, shape)
    return unitary_from(m) if shape[0] == shape[1] else m.astype(complex)


def vector(length: int, seed: int, scale: float = 1.0) -> np.ndarray:
    r = np.random.default_rng(seed)
    v = r.normal(size=length) + 1j * r.normal(size=length)
    return scale * v / np.linalg.norm(v)


@st.composite
def state_cases(draw: Any) -> dict[str, Any]:
    q = st.integers(-2, 5)
    shape = st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7])
    near = st.integers(0, 40).map(lambda i: -1 if i == 0 else (7 if i == 1 else i % 4))
    idx = st.one_of(near, near, q)
    some = st.one_of(st.integers(0, 11), st.permutations([0, 1, 2]).map(lambda p: list(p)))
    targets = st.lists(idx, min_size=1, max_size=3)
    names = ["evolve_single", "evolve", "expectation_single", "expectation_value", "project_qubit", "permute", "entangle", "swap", "cnot", "ptrace", "apply_channel", "add_nodes", "compare", "new"]
    req = st.one_of(*[st.fixed_dictionaries({"r": st.just(n), "q": idx, "p": idx, "t": targets, "s": shape, "fit": st.integers(0, 3), "perm": st.tuples(some, st.integers(0, 9)).map(list), "seed": st.integers(0, 99), "d": st.integers(0, 7), "k": st.integers(0, 3)}) for n in names])
    return {"kind": draw(st.sampled_from(["sv", "dm"])), "n": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 999)), "reqs": draw(st.lists(req, min_size=2, max_size=8))}


def data_of(r: dict[str, Any], k: int) -> tuple[Any, bool]:
    """Data for k qubits and whether it is acceptable."""
    d, seed = r["d"], r["seed"]
    if d == 0:
        return BasicStates.PLUS_I, True
    if d in (1, 2):
        m = k if d == 1 else (k + 1 + seed % 2)
        return [BasicStates.VEC[(seed + i) % 6] for i in range(m)], m == k or (m == 0 and k == 0)
    if d in (3, 4):
        m = k if d == 3 else k + 1
        return vector(2**m, seed), m == k
    if d == 5:
        return vector(2**k, seed, 0.5 + (seed % 3)), seed % 3 == 3
    if d == 6:
        return vector(2**k + 1 + 2 * (seed % 2) if k else 3, seed), False
    return [0.0] * 2**k, False


def apply_state(state: Any, r: dict[str, Any], info: Info | None, watch_only: bool = False) -> bool | None:
    """Make the request on the state; None if it is not defined here, else whether it was legal."""
    dm = isinstance(state, DensityMatrix)
    n, q, name = state.nqubit, r["q"], r["r"]
    inside = 0 <= q < n
    # half of the requests have arguments of the right size
    shape = SHAPES[r["s"]]
    t = list(r["t"])
    if r["fit"] in (1, 2):
        start = r["seed"] % n if n else 0
        t = [(start + i) % n for i in range(min(len(t), n))] if n else t
        if r["fit"] == 2 and len(t) >= 2:
            t[-1] = [t[0], -1, n, t[-1] - n][r["seed"] % 4]
    if r["fit"] in (1, 2, 3):
        shape = (2 ** len(t), 2 ** len(t)) if name in ("evolve", "expectation_value") else (2, 2)
    good_targets = all(0 <= x < n for x in t) and len(set(t)) == len(t)
    one = operator(shape, r["seed"])
    pair = (q, r["p"])
    if r["fit"] == 1 and n >= 2:
        pair = (r["seed"] % n, (r["seed"] + 1 + r["k"] % (n - 1)) % n)
    good_pair = all(0 <= x < n for x in pair) and pair[0] != pair[1]
    watch: list[Any] = [state]
    if name in ("evolve_single", "expectation_single"):
        legal = inside and shape == (2, 2)
        call = lambda: getattr(state, name)(one, q)  # noqa: E731
        watch.append(one)
        text = f"{name} {shape} {q}"
    elif name in ("evolve", "expectation_value"):
        if name == "expectation_value" and dm:
            return None
        if shape[0] != shape[1] and shape[0] * shape[1] == 4 ** len(t):
            return None
        legal = shape == (2 ** len(t),) * 2 and good_targets
        call = lambda: getattr(state, name)(one, t)  # noqa: E731
        watch += [one, t]
        text = f"{name} {shape} {t}"
    elif name == "project_qubit":
        v = vector(2, r["seed"])
        op = np.outer(v, v.conj()) if shape == (2, 2) else one
        if inside and shape == (2, 2):
            full = np.array(state.flatten())
            rho = (full if dm else np.outer(full, full.conj())).reshape((2,) * (2 * n))
            red = np.trace(np.moveaxis(rho, (q, n + q), (0, 1)).reshape(2, 2, 2 ** (n - 1), 2 ** (n - 1)), axis1=2, axis2=3)
            if abs(np.trace(op @ red)) < 1e-4:
                return None
        legal = inside and shape == (2, 2)
        call = lambda: state.project_qubit(op, q)  # noqa: E731
        watch.append(op)
        text = f"project_qubit {shape} {q}"
    elif name == "permute":
        p = [(r["seed"] + i) % n for i in range(n)] if n else []
        for i, change in enumerate(r["perm"]):
            if isinstance(change, list):
                p = [change[x] if x < 3 <= n else x for x in p]
            elif change < 3 and p:
                p[change % len(p)] = [-1, n, p[-1], p[0] - n][(change + i) % 4]
            elif change == 3:
                p = p[:-1]
            elif change == 4:
                p = [*p, n]
            elif change == 5 and p:
                p = [*p, p[0]]
        legal = sorted(p) == list(range(n))
        call = lambda: state.permute(p)  # noqa: E731
        watch.append(p)
        text = f"permute {p} of {n}"
    elif name in ("entangle", "swap", "cnot"):
        if (name == "cnot" and not dm) or pair[0] == pair[1]:
            return None
        legal = good_pair
        call = lambda: getattr(state, name)(pair)  # noqa: E731
        text = f"{name} {pair} of {n}"
    elif name == "ptrace":
        if not dm or (good_targets and len(t) >= n):
            return None
        legal = good_targets
        call = lambda: state.ptrace(t)  # noqa: E731
        watch.append(t)
        text = f"ptrace {t} of {n}"
    elif name == "apply_channel":
        if not dm:
            return None
        m = len(t) if r["fit"] else 1 + r["k"] % 2
        u = operator((2**m, 2**m), r["seed"])
        channel = KrausChannel([KrausData(0.6, u), KrausData(0.8, np.eye(2**m))])
        legal = good_targets and len(t) == m
        call = lambda: state.apply_channel(channel, t)  # noqa: E731
        watch += [channel, t]
        text = f"apply_channel {m} {t} of {n}"
    elif name == "add_nodes":
        if n + r["k"] > 5 or r["k"] == 0:
            return None
        data, legal = data_of(r, r["k"])
        call = lambda: state.add_nodes(r["k"], data)  # noqa: E731
        watch.append(data)
        text = f"add_nodes {r['k']} {data!r}"
    elif name == "compare":
        other = Statevector(vector(2 ** r["k"], r["seed"]))
        legal = r["k"] == n
        method = "fidelity" if dm or r["d"] % 2 else "isclose"
        if method == "isclose" and not legal:
            return None
        call = lambda: getattr(state, method)(other)  # noqa: E731
        watch.append(other)
        text = f"compare {method} {n} {r['k']}"
    else:
        if r["k"] == 0:
            return None
        data, legal = data_of(r, r["k"])
        call = lambda: type(state)(data, r["k"])  # noqa: E731
        watch.append(data)
        text = f"new {type(state).__name__} {r['k']} {data!r}"
    if info is None:
        if legal:
            call()
        return legal
    made = attempt(text, legal, call, watch, info)
    if name == "new" and legal:
        check(made is not None and made.nqubit == r["k"], "size of the new state")
    return legal


def state_oracle(case: Any, info: Info) -> None:
    cls = Statevector if case["kind"] == "sv" else DensityMatrix
    v = vector(2 ** case["n"], case["seed"])
    state, twin = cls(v), cls(v)
    accepted = refused = 0
    for r in case["reqs"]:
        got = apply_state(state, r, info)
        if got is None:
            continue
        if got:
            accepted += 1
            apply_state(twin, r, None)
        else:
            refused += 1
    check(fp(state) == fp(twin), lambda: f"the refused requests left a trace:\n{fp(state)}\n{fp(twin)}")
    finish(accepted, refused, info)


# ------------------------------------------------------------------ circuits

GATES = {"h": 1, "s": 1, "x": 1, "y": 1, "z": 1, "i": 1, "m": 1, "rx": 1, "ry": 1, "rz": 1, "j": 1, "cnot": 2, "cz": 2, "swap": 2, "rzz": 2, "ccx": 3}


@st.composite
def circuit_cases(draw: Any) -> dict[str, Any]:
    w = draw(st.integers(1, 4))
    q = st.integers(0, 30).map(lambda i: -1 if i == 29 else (w if i == 30 else i % w))
    gate = st.one_of(*[st.tuples(st.just(g), st.lists(q, min_size=k, max_size=k), st.integers(0, 15)).map(list) for g, k in GATES.items()])
    return {"w": w, "reqs": draw(st.lists(gate, min_size=2, max_size=12)), "how": draw(st.sampled_from(["method", "add", "mixed"]))}


def gate_call(c: Circuit, g: str, qs: list[int], a: int) -> None:
    if g == "m":
        c.m(qs[0], list(Axis)[a % 3])
    elif g in ("rx", "ry", "rz", "j", "rzz"):
        getattr(c, g)(*qs, a / 8)
    else:
        getattr(c, g)(*qs)


def instruction_of(g: str, qs: list[int], a: int) -> Any:
    """The instruction itself, with no circuit in between."""
    match g:
        case "m":
            return ins.M(qs[0], list(Axis)[a % 3])
        case "rx" | "ry" | "rz":
            return getattr(ins, g.upper())(qs[0], a / 8)
        case "j":
            return ins.J(qs[0], a / 8)
        case "rzz":
            return ins.RZZ(target=qs[1], control=qs[0], angle=a / 8)
        case "cnot":
            return ins.CNOT(target=qs[1], control=qs[0])
        case "cz" | "swap":
            return getattr(ins, g.upper())(tuple(qs))
        case "ccx":
            return ins.CCX(target=qs[2], controls=(qs[0], qs[1]))
        case _:
            return getattr(ins, g.upper())(qs[0])


def circuit_oracle(case: Any, info: Info) -> None:
    w = case["w"]
    c = Circuit(w)
    active = set(range(w))
    kept: list[Any] = []
    accepted = refused = 0
    for i, (g, qs, a) in enumerate(case["reqs"]):
        if g == "rzz" and qs[0] == qs[1]:
            continue
        legal = set(qs) <= active and len(set(qs)) == len(qs)
        instr = instruction_of(g, qs, a)
        if not legal:
            refused += 1
            attempt(f"constructor {g} {qs}", False, lambda: Circuit(w, instr=[*kept, instr]), [kept], info)
        by_add = case["how"] == "add" or (case["how"] == "mixed" and i % 2)
        attempt(f"{g} {qs} of {w}, active {sorted(active)}", legal, (lambda: c.add(instr)) if by_add else (lambda: gate_call(c, g, qs, a)), [c], info)
        if legal:
            accepted += 1
            kept.append(instr)
            if g == "m":
                active.discard(qs[0])
        check(list(c.instruction) == kept, lambda: f"instructions {c.instruction} instead of {kept}")
        check(set(c.active_qubits) == active and c.width == w, lambda: f"active qubits {c.active_qubits} instead of {active}")
    check(fp(Circuit(w, instr=kept)) == fp(c), "circuit rebuilt from its instructions")
    finish(accepted, refused, info)


# ------------------------------------------------------------------ patterns

NEEDS_RUNNABLE: list[tuple[str, Callable[[Any], Any]]] = [
    ("check_runnability", lambda p: p.check_runnability()), ("standardize", lambda p: p.standardize()), ("shift_signals", lambda p: p.shift_signals()), ("shift_signals-mc", lambda p: p.shift_signals(method="mc")),
    ("minimize_space", lambda p: p.minimize_space()), ("parallelize_pattern", lambda p: p.parallelize_pattern()), ("perform_pauli_pushing", lambda p: p.perform_pauli_pushing()), ("remove_pauli_measurements", lambda p: p.remove_pauli_measurements()),
    ("to_opengraph", lambda p: p.to_opengraph()), ("to_causalflow", lambda p: p.to_causalflow()), ("to_gflow", lambda p: p.to_gflow()), ("to_pauliflow", lambda p: p.to_pauliflow()), ("to_xzcorrections", lambda p: p.to_xzcorrections()),
    ("partial_order_layers", lambda p: p.partial_order_layers()),
    ("simulate", lambda p: p.simulate(rng=np.random.default_rng(0))), ("simulate-dm", lambda p: p.simulate(backend="densitymatrix", rng=np.random.default_rng(0))),
    ("simulate-noisy", lambda p: p.simulate(backend="densitymatrix", noise_model=DepolarisingNoiseModel(measure_channel_prob=0.1), rng=np.random.default_rng(0))),
]
COPYING = ["standardize", "shift_signals", "shift_signals-mc", "minimize_space", "perform_pauli_pushing", "remove_pauli_measurements"]


@st.composite
def pattern_cases(draw: Any) -> dict[str, Any]:
    d = draw(st.one_of(gen.det_patterns(min_meas=1, max_meas=4), gen.soups(max_active=4, max_total=6, max_steps=14, states=True)))
    muts = draw(st.lists(st.tuples(st.sampled_from(["delete", "dup", "move", "node", "domain", "self", "input"]), st.integers(0, 99), st.integers(0, 99)).map(list), max_size=2))
    other = draw(gen.det_patterns(max_meas=2))
    maps = draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list), max_size=4))
    return {"pattern": d, "muts": muts, "other": other, "maps": maps, "order": draw(st.tuples(st.integers(0, 99), st.integers(0, 6)).map(list)), "pick": draw(st.integers(0, 999)), "seed": draw(st.integers(0, 99)), "d": draw(st.integers(0, 6))}


def disturb(order: list[int], case: Any) -> list[int]:
    a, b = case["order"]
    if not order:
        return order if b < 4 else [a]
    i = a % len(order)
    order = order[i:] + order[:i]
    match b:
        case 1:
            order = order[:-1]
        case 2:
            order = [*order, order[i]]
        case 3:
            order[i] = order[i - 1]
        case 4:
            order[i] = 99
        case 5:
            order = [*order, 99]
    return order


def pattern_oracle(case: Any, info: Info) -> None:  # noqa: C901
    d = case["pattern"]
    accepted = refused = 0

    def req(text: str, legal: bool, call: Callable[[], Any], watch: list[Any]) -> Any:
        nonlocal accepted, refused
        accepted, refused = accepted + legal, refused + (not legal)
        return attempt(text, legal, call, watch, info)

    p = conv.pattern(d)
    for name, nodes in (("reorder_output_nodes", list(p.output_nodes)), ("reorder_input_nodes", list(p.input_nodes))):
        order = disturb(list(nodes), case)
        q = conv.pattern(d)
        req(f"{name} {order} of {nodes}", sorted(order) == sorted(nodes), lambda: getattr(q, name)(order), [q, order])
    q = conv.pattern(d)
    req("shift_signals-unknown", False, lambda: q.shift_signals(method=["x", "DIRECT", "", "MC"][case["pick"] % 4]), [q])
    other = conv.pattern(case["other"])
    mine, theirs = sorted(p.nodes()), sorted(other.nodes())
    mapping = {}
    for a, b in case["maps"]:
        k = a % (len(theirs) + (a > 90))
        targets = [*p.output_nodes, *p.output_nodes, *mine, 60, 61, 62]
        mapping[theirs[k] if k < len(theirs) else 777] = targets[b % len(targets)]
    if case["pick"] % 4 == 0:
        # the ordinary composition, with a chance of an error in it
        mapping = dict(zip(sorted(other.input_nodes), p.output_nodes, strict=False))
    keys_known = all(k in theirs for k in mapping)
    injective = len(set(mapping.values())) == len(mapping)
    outputs, measured = set(p.output_nodes), set(mine) - set(p.output_nodes)
    legal = keys_known and injective and not (set(mapping.values()) & measured) and all(v not in outputs or k in other.input_nodes for k, v in mapping.items())
    req(f"compose {mapping}", legal, lambda: p.compose(other, mapping), [p, other, mapping])
    req(f"node_mapping {mapping}", keys_known and injective, lambda: other.node_mapping(mapping), [other, mapping])
    # arguments of simulations
    n = len(p.input_nodes)
    big = p.max_space() > 7
    if n and not big:
        data, legal = data_of({"d": case["d"], "seed": case["seed"]}, n)
        if not (isinstance(data, list) and len(data) == 1):
            for backend in ("statevector", "densitymatrix"):
                req(f"simulate-input {backend} {n} {data!r}", legal, lambda: p.simulate(backend=backend, input_state=data, rng=np.random.default_rng(1)), [p, data])
    ms = [c.node for c in p if c.kind == CommandKind.M]
    if ms and not big:
        left_out = ms[case["pick"] % len(ms)]
        results = dict.fromkeys(ms, 0)
        del results[left_out]
        sel = FixedBranchSelector(results)
        req(f"simulate-branch without {left_out}", False, lambda: p.simulate(branch_selector=sel, rng=np.random.default_rng(1)), [p, results])
    # patterns which cannot run
    bad = mutate(d, case["muts"]) if case["muts"] else d
    if problems(bad) is not None:
        broken = Pattern(input_nodes=bad["in"], cmds=[conv.cmd(c) for c in bad["cmds"]])
        for name, f in NEEDS_RUNNABLE:
            req(f"unrunnable:{name}", False, lambda: f(broken), [broken])
        for name in COPYING:
            method, kw = (name[:-3], {"method": "mc"}) if name.endswith("-mc") else (name, {})
            req(f"unrunnable:{name}-copy", False, lambda: getattr(broken, method)(copy=True, **kw), [broken])
    finish(accepted, refused, info)


# ------------------------------------------------------------------ graphs


@st.composite
def graph_cases(draw: Any) -> dict[str, Any]:
    return {
        "og": draw(gen.open_graphs(max_nodes=5)), "muts": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 99)).map(list), max_size=2)),
        "other": draw(gen.open_graphs(max_nodes=4)), "maps": draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list), max_size=3)),
        "gs": [draw(st.integers(1, 5)), draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list), max_size=7))],
        "ops": draw(st.lists(st.tuples(st.integers(0, 14), st.integers(0, 6), st.integers(0, 6), st.integers(-1, 3)).map(list), min_size=2, max_size=10)),
    }


def broken_graph(case: Any) -> tuple[dict[str, Any], bool]:
    """Parts of an open graph after some mistakes, and whether they still make one (the documented conditions)."""
    og = conv.opengraph(case["og"])
    parts: dict[str, Any] = {"graph": nx.Graph(og.graph), "input_nodes": list(og.input_nodes), "output_nodes": list(og.output_nodes), "measurements": dict(og.measurements), "output_cliffords": dict(og.output_cliffords)}
    nodes = sorted(og.graph.nodes)
    for kind, a in case["muts"]:
        v = nodes[a % len(nodes)]
        m = parts["measurements"]
        match kind:
            case 0:
                m[99] = Measurement.XY(0.25)
            case 1:
                m.pop(v, None)
            case 2:
                m.setdefault(v, Measurement.XZ(0.25))
            case 3:
                parts["input_nodes"].append(v)
            case 4:
                parts["output_nodes"].append(v)
            case 5:
                parts["input_nodes"].append(99)
            case 6:
                parts["output_nodes"].append(99)
            case 7:
                parts["output_cliffords"][v] = Clifford.H
            case 8:
                parts["graph"].remove_nodes_from([v])
            case 9:
                parts["graph"].add_edge(v, 50 + a % 3)
    g, ins, outs, m, cl = (parts[k] for k in ("graph", "input_nodes", "output_nodes", "measurements", "output_cliffords"))
    every = set(g.nodes)
    legal = (
        set(m) <= every and set(ins) <= every and set(outs) <= every and not (set(outs) & set(m)) and set(m) == every - set(outs)
        and len(set(ins)) == len(ins) and len(set(outs)) == len(outs) and set(cl) <= set(outs)
    )
    return parts, legal


def graph_oracle(case: Any, info: Info) -> None:  # noqa: C901, PLR0912
    accepted = refused = 0

    def req(text: str, legal: bool, call: Callable[[], Any], watch: list[Any]) -> Any:
        nonlocal accepted, refused
        accepted, refused = accepted + legal, refused + (not legal)
        return attempt(text, legal, call, watch, info)

    parts, legal = broken_graph(case)
    req(f"opengraph {case['muts']}", legal, lambda: OpenGraph(**parts), list(parts.values()))
    og, other = conv.opengraph(case["og"]), conv.opengraph(case["other"])
    mine, theirs = sorted(og.graph.nodes), sorted(other.graph.nodes)
    mapping: dict[int, int] = {}
    for a, b in case["maps"]:
        k = a % (len(theirs) + (a > 90))
        targets = [*mine, 60, 61]
        mapping[theirs[k] if k < len(theirs) else 777] = targets[b % len(targets)]
    alike = [(other.measurements[k], og.measurements[v]) for k, v in mapping.items() if k in other.measurements and v in og.measurements]
    legal = all(k in theirs for k in mapping) and len(set(mapping.values())) == len(mapping) and all(x.isclose(y) for x, y in alike)
    req(f"opengraph-compose {mapping}", legal, lambda: og.compose(other, mapping), [og, other, mapping])
    n, edges = case["gs"]
    g, twin = (GraphState(nodes=list(range(n)), edges=[(a % n, b % n) for a, b in edges if a % n != b % n]) for _ in range(2))
    for op, a, b, choice in case["ops"]:
        if not len(g):
            break
        nodes = sorted(g.nodes)
        v = nodes[a % len(nodes)] if a < 6 else 40
        u = nodes[b % len(nodes)] if b < 6 else 41
        known = v in g
        match op:
            case 0 | 1 | 2 | 3 | 4 | 5:
                name = ["h", "s", "z", "local_complement", "flip_fill", "flip_sign"][op]
                legal, f = known, lambda x: getattr(x, name)(v)
            case 6 | 7 | 8:
                name = ["measure_x", "measure_y", "measure_z"][op - 6]
                legal, f = known and choice in (0, 1), lambda x: getattr(x, name)(v, choice=choice)
            case 9:
                name = "equivalent_graph_e1"
                legal, f = known and bool(g.nodes[v]["loop"]), lambda x: x.equivalent_graph_e1(v)
            case 10:
                name = "equivalent_graph_e2"
                legal = known and u in g and g.has_edge(v, u) and not (g.nodes[v]["loop"] or g.nodes[u]["loop"])
                f = lambda x: x.equivalent_graph_e2(v, u)  # noqa: E731
            case 11:
                name = "apply_vops"
                legal, f = known, lambda x: x.apply_vops({v: Clifford.S})
            case 12:
                name = "remove_edge"
                legal, f = known and u in g and g.has_edge(v, u), lambda x: x.remove_edge(v, u)
            case 13:
                name = "advance"
                legal, f = known, lambda x: x.advance(v)
            case _:
                name = "remove_node"
                legal, f = known, lambda x: x.remove_node(v)
        req(f"graphstate-{name} {v} {u} {choice}", legal, lambda: f(g), [g])
        if legal:
            f(twin)
    check(fp(g) == fp(twin), "the refused requests left a trace in the graph state")
    finish(accepted, refused, info)


# ------------------------------------------------------------------ channels and matrices


@st.composite
def matrix_cases(draw: Any) -> dict[str, Any]:
    return {
        "n": draw(st.integers(1, 2)), "k": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 9999)), "flaw": draw(st.integers(0, 9)), "eps": draw(st.sampled_from([1e-2, 0.1, 0.5, 1.0])),
        "shapes": draw(st.lists(st.integers(0, 4), min_size=4, max_size=4)), "bits": draw(st.integers(0, 2**20 - 1)),
    }


def matrix_oracle(case: Any, info: Info) -> None:
    accepted = refused = 0

    def req(text: str, legal: bool, call: Callable[[], Any], watch: list[Any]) -> Any:
        nonlocal accepted, refused
        accepted, refused = accepted + legal, refused + (not legal)
        return attempt(text, legal, call, watch, info)

    n, k = case["n"], case["k"]
    r = np.random.default_rng(case["seed"])
    dim = 2**n
    k = min(k, 4**n)
    raw = r.normal(size=(k * dim, dim)) + 1j * r.normal(size=(k * dim, dim))
    iso = np.linalg.qr(raw)[0].reshape(k, dim, dim)
    coefs = [complex(z) for z in r.normal(size=k) + 1j * r.normal(size=k) + 2]
    data = [(c, m / c) for c, m in zip(coefs, iso, strict=True)]
    flaw, i = case["flaw"], case["seed"] % k
    legal = True
    if flaw == 1:  # rescaled operator
        data[i], legal = (data[i][0], data[i][1] * (1 + case["eps"])), False
    elif flaw == 2:  # phase: another channel, still valid
        data[i] = (data[i][0] * np.exp(1j * case["eps"]), data[i][1])
    elif flaw == 3:  # another size
        if k > 1:
            data[i], legal = (1.0, np.eye(2 * dim)), False
    elif flaw == 4:  # one operator missing
        data.pop(i)
        legal = False
    elif flaw == 5:  # too many operators
        data = [(complex(np.sqrt(1 / (4**n + 1))), np.eye(dim)) for _ in range(4**n + 1)]
        legal = False
    elif flaw == 6:  # operators summing on the other side only
        data = [(c, m.conj().T) for c, m in data]
        total = sum(abs(c) ** 2 * m.conj().T @ m for c, m in data)
        gap = np.abs(total - np.eye(dim)).max()
        if 1e-9 < gap < 1e-2:
            raise Discard
        legal = bool(gap <= 1e-9)
    kraus = [KrausData(c, m) for c, m in data]
    arrays = [m for _, m in data]
    made = req(f"channel {n} {k} flaw {flaw}", legal, lambda: KrausChannel(kraus), [arrays])
    if legal:
        check(made.nqubit == n and len(made) == len(data), "size of the channel")
    shape = SHAPES[case["bits"] % len(SHAPES)]
    op = operator(shape, case["seed"])
    req(f"kraus-operator {shape}", shape in ((2, 2), (4, 4), (8, 8)), lambda: KrausData(1.0, op), [op]) if shape != (1, 1) else None
    a, b, c, d = case["shapes"]
    if case["bits"] % 3 == 0:
        c = b
    bits = np.array([(case["bits"] >> j) & 1 for j in range(20)] * 2, dtype=np.uint8)
    x, y = MatGF2(bits[: a * b].reshape(a, b)), MatGF2(bits[20 : 20 + c * d].reshape(c, d))
    product = req(f"mat_mul {x.shape} {y.shape}", b == c, lambda: x.mat_mul(y), [x, y])
    if b == c:
        check(np.array_equal(np.array(product), (bits[: a * b].reshape(a, b).astype(int) @ bits[20 : 20 + c * d].reshape(c, d).astype(int)) % 2), "product")
    finish(accepted, refused, info)


# ------------------------------------------------------------------ options (enumerated)

BACKENDS = ["statevector", "densitymatrix", "tensornetwork", "mps", "StateVector", "", "unknown", "SV", "DM"]
PREPS = [None, "parallel", "sequential", "auto", "opt", "other"]


def option_cases(tier: str) -> Any:
    del tier
    for backend in BACKENDS:
        for noise in (0, 1):
            for prep in range(len(PREPS)):
                for sel in (0, 1):
                    for symbolic in (None, False, True):
                        yield {"backend": backend, "noise": noise, "prep": prep, "sel": sel, "symbolic": symbolic}


def option_oracle(case: Any, info: Info) -> None:
    pat = Pattern(input_nodes=[0], cmds=[command.N(1), command.E((0, 1)), command.M(0, Measurement.XY(0.3)), command.X(1, {0})], output_nodes=[1])
    kw: dict[str, Any] = {}
    if case["noise"]:
        kw["noise_model"] = DepolarisingNoiseModel(measure_channel_prob=0.1)
    prep = PREPS[case["prep"]]
    if prep is not None:
        kw["graph_prep"] = prep
    if case["sel"]:
        kw["branch_selector"] = ConstBranchSelector(1)
    if case["symbolic"] is not None:
        kw["symbolic"] = case["symbolic"]
    b = case["backend"]
    instance: Any = None
    if b in ("SV", "DM"):
        instance = StatevectorBackend() if b == "SV" else DensityMatrixBackend()
        legal = not case["sel"] and prep is None and not case["symbolic"]
        if b == "SV" and case["noise"] and legal:
            return  # decided by the backend itself
    elif b == "statevector":
        legal = not case["noise"] and prep is None and not case["symbolic"]
    elif b == "densitymatrix":
        legal = prep is None
        if legal and case["noise"] and case["symbolic"]:
            return  # unsupported rather than refused
    elif b in ("tensornetwork", "mps"):
        legal = not case["noise"] and not case["symbolic"] and prep in (None, "parallel", "sequential", "auto", "opt")
        if prep == "opt":
            return  # deprecated name
    else:
        legal = False
    attempt(f"options:{b} {sorted(kw)}", legal, lambda: pat.simulate(backend=instance or b, rng=np.random.default_rng(1), **kw), [pat], info)
    if instance is not None:
        if legal:
            check(instance.nqubit == 1, "qubits of the given backend")
            fresh = [np.array(instance.state.flatten())]
            attempt(f"options:{b}-reused", False, lambda: pat.simulate(backend=instance, rng=np.random.default_rng(1)), [pat, fresh[0]], info)
            check(np.array_equal(np.array(instance.state.flatten()), fresh[0]) and instance.nqubit == 1, "a refused simulation changed the state of the given backend")
        else:
            check(instance.nqubit == 0, "a refused simulation prepared qubits on the given backend")
    c = Circuit(1)
    c.h(0)
    if b in ("statevector", "densitymatrix", "SV", "DM", "unknown", "", "StateVector") and not case["noise"] and prep is None and case["symbolic"] is None:
        inst = instance if b not in ("SV", "DM") else (StatevectorBackend() if b == "SV" else DensityMatrixBackend())
        legal = b in ("statevector", "densitymatrix") or (b in ("SV", "DM") and not case["sel"])
        ckw = {"branch_selector": ConstBranchSelector(1)} if case["sel"] else {}
        attempt(f"circuit-options:{b}", legal, lambda: c.simulate(backend=inst or b, rng=np.random.default_rng(1), **ckw), [c], info)
    info.nt()


SUBS = [
    Sub("states", state_cases, state_oracle, 3000, 80000, shards=3, rule="at least one request accepted and one refused"),
    Sub("circuits", circuit_cases, circuit_oracle, 3000, 60000, shards=2, rule="at least one request accepted and one refused"),
    Sub("patterns", pattern_cases, pattern_oracle, 1500, 40000, shards=4, rule="at least one request accepted and one refused"),
    Sub("graphs", graph_cases, graph_oracle, 2500, 60000, shards=3, rule="at least one request accepted and one refused"),
    Sub("matrices", matrix_cases, matrix_oracle, 2000, 40000, shards=2, rule="at least one request accepted and one refused"),
    Sub("options", lambda: None, option_oracle, quick=0, shards=2, enumerate=option_cases, rule="every combination counts"),
]
