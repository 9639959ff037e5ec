"""C17: the three simulation backends on the same branches, against a dense reference.

Deterministic patterns and arbitrary runnable ones run on the state-vector, density-matrix and tensor-network (automatic,
sequential and parallel preparation) backends along the same possible branches; final states and the probability offered
at every measurement are compared with an independent dense simulation.  Tensor-network views (coefficients, amplitudes,
state vector, norm, expectation values, evolution, copies) are compared with the dense state, for simulation results and
for networks built by generated sequences of operations.
"""
from __future__ import annotations

import random
import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend
from graphix.states import BasicStates
from vh import conv, gen, ref
from vh.checks import c13
from vh.core import Fail, Info, Sub, check
from vh.util import Script, mat, ops as operators, raises, unitary_of, vec, vecs

TOL = 1e-6


def dense(state: Any) -> np.ndarray:
    return np.asarray(state).reshape(-1)


def same_vec(a: np.ndarray, b: np.ndarray, what: str) -> None:
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    check(a.shape == b.shape and ref.same_up_to_phase(a, b, TOL), lambda: f"{what}: state\n{np.round(a, 4).tolist()}\nreference\n{np.round(b, 4).tolist()}")


def run(p: Any, backend: str, sel: Any, **kw: Any) -> Any:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return p.simulate(backend, branch_selector=sel, **kw)


@st.composite
def patterns(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(["det", "det", "soup", "any"]))
    if kind == "det":
        pat = draw(gen.det_patterns(max_meas=5))
    else:
        pat = draw(gen.soups(max_active=4, max_total=7, max_steps=18, states=kind == "any", max_inputs=2))
    return {"kind": kind, "pat": pat, "std": draw(st.booleans()), "picks": draw(gen.picks())}


def oracle(case: Any, info: Info) -> None:
    p = conv.pattern(case["pat"])
    if case["std"]:
        p.standardize()
    d = conv.describe(p)
    plain = all(c[0] != "N" or np.allclose(ref.state_vec(c[2]), ref.STATES["PLUS"]) for c in d["cmds"])
    n_in = len(d["in"])
    psi0 = ref.kron_all([ref.STATES["PLUS"].reshape(-1, 1)] * n_in).reshape(-1)
    ms = ref.measured(d["cmds"])
    touched = {v for c in d["cmds"] if c[0] == "E" for v in c[1:3]}
    before = conv.freeze(p)
    info.nt(bool(ms) and bool(touched))
    info.label(case["kind"])
    for want in ref.branch_list(ms, 1, case["picks"]):
        final, log = c13.walk(d, psi0, lambda q, p0: want[q] if (p0 if want[q] == 0 else 1 - p0) > 1e-6 else 1 - want[q])  # noqa: B023
        taken = {q: o for q, _, o in log}
        info.extra += 1
        runs: list[tuple[str, dict[str, Any]]] = [("statevector", {}), ("densitymatrix", {})]
        if not d["in"] and not any(c[0] == "N" for c in d["cmds"]):
            info.label("no nodes")  # an empty tensor network has no value
        elif plain:
            runs += [("tensornetwork", {}), ("tensornetwork", {"graph_prep": "sequential"})]
            if p.is_standard():
                runs.append(("tensornetwork", {"graph_prep": "parallel"}))
                info.label("parallel preparation")
            else:
                check(raises(ValueError, lambda: run(p, "tensornetwork", ConstBranchSelector(0), graph_prep="parallel")) is not None, "parallel preparation of a pattern that is not standard")  # noqa: B023
        else:
            info.label("other preparations")
            check(raises((NotImplementedError, ValueError), lambda: run(p, "tensornetwork", ConstBranchSelector(0))) is not None, "tensor network for a pattern with other preparations than |+>")
        for backend, kw in runs:
            what = f"{backend} {kw.get('graph_prep', '')} on branch {taken}"
            sel = Script(taken, eps=-1)
            res = run(p, backend, sel, **kw)
            check([q for q, _, _ in sel.log] == ms, lambda: f"{what}: the branch selector was asked about {[q for q, _, _ in sel.log]}, measured are {ms}")  # noqa: B023
            uniform = True
            for (q, p0, _), (_, e0, _) in zip(sel.log, log):
                if abs(p0 - e0) > TOL:
                    err = Fail(f"{what}: probability of 0 for node {q} is {e0}, the backend offers {p0}")
                    if backend == "tensornetwork" and q in touched and p0 == 0.5:
                        info.finding("tensornetwork-uniform-probabilities", err)
                        uniform = False
                    else:
                        raise err
            if backend == "densitymatrix":
                rho = np.asarray(res.rho)
                f = final / np.linalg.norm(final)
                check(rho.shape == (f.size, f.size) and np.allclose(rho, np.outer(f, f.conj()), atol=TOL), lambda: f"{what}: density matrix\n{np.round(rho, 4).tolist()}\nreference\n{np.round(np.outer(f, f.conj()), 4).tolist()}")  # noqa: B023
            else:
                same_vec(dense(res.flatten()), final, what)
            if backend == "tensornetwork" and uniform:
                check(abs(res.norm() - 1) < 1e-5, lambda: f"{what}: norm {res.norm()}")  # noqa: B023
    check(conv.freeze(p) == before, "simulation changed the pattern")


def no_inputs_oracle(case: Any, info: Info) -> None:
    """Density matrices agree with state vectors on any input, also mixed with classical results."""
    d = case["pat"]
    p = conv.pattern(d)
    n = len(d["in"])
    psi0 = vec(case["amps"])
    ms = ref.measured(d["cmds"])
    info.nt(bool(ms) and n > 0)
    for want in ref.branch_list(ms, 1, case["picks"]):
        final, log = c13.walk(d, psi0, lambda q, p0: want[q] if (p0 if want[q] == 0 else 1 - p0) > 1e-6 else 1 - want[q])  # noqa: B023
        taken = {q: o for q, _, o in log}
        f = final / np.linalg.norm(final)
        for form in range(3):
            sel = Script(taken, eps=-1)
            data = psi0.copy() if form == 0 else np.outer(psi0, psi0.conj())
            if form == 2:
                be = DensityMatrixBackend(branch_selector=sel)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    res = p.simulate(be, input_state=data)
                check(list(be.node_index) == d["out"], f"backend ends with the nodes {list(be.node_index)}")
            else:
                res = run(p, "densitymatrix", sel, input_state=data)
            for (q, p0, _), (_, e0, _) in zip(sel.log, log):
                check(abs(p0 - e0) < TOL, lambda: f"probability of 0 for node {q} is {e0}, the density-matrix backend offers {p0}")  # noqa: B023
            check(np.allclose(np.asarray(res.rho), np.outer(f, f.conj()), atol=TOL), lambda: f"density matrix on branch {taken} with input form {form} differs")  # noqa: B023
        sv = run(p, "statevector", Script(taken, eps=-1), input_state=psi0.copy())
        same_vec(dense(sv.flatten()), final, f"statevector on branch {taken}")
        info.extra += 1


@st.composite
def inputs(draw: Any) -> dict[str, Any]:
    pat = draw(gen.soups(max_active=4, max_total=6, max_steps=18, edge_safe=False))
    return {"pat": pat, "amps": draw(vecs(len(pat["in"]))), "picks": draw(gen.picks())}


# -------------------------------------------------------------------- views

def check_views(tn: Any, psi: np.ndarray, nodes: list[int], case: Any, info: Info, what: str, default: bool) -> None:
    """All views of a network whose open nodes are `nodes`, in the (unnormalised) state psi."""
    n = len(nodes)
    norm = np.linalg.norm(psi)
    check(abs(tn.norm() - norm) < TOL * (1 + norm), lambda: f"{what}: norm {tn.norm()} instead of {norm}")
    perm = [k for k in sorted(range(n), key=lambda i: (case["perm"] >> (4 * i)) % 16)]
    t = psi.reshape((2,) * n).transpose(perm).reshape(-1) if n else psi
    same_vec(dense(tn.to_statevector(indices=[nodes[k] for k in perm])), t, f"{what}: state vector of the nodes {[nodes[k] for k in perm]}")
    if default:
        same_vec(dense(tn.to_statevector()), psi, f"{what}: state vector")
        same_vec(dense(tn.flatten()), psi, f"{what}: flatten")
    got = np.array([complex(tn.basis_coefficient(k, indices=nodes)) for k in range(2**n)])
    check(ref.same_up_to_phase(got, psi / norm, TOL), lambda: f"{what}: normalised coefficients {got.tolist()} instead of {(psi / norm).tolist()}")
    got = np.array([complex(tn.basis_coefficient(format(k, f"0{n}b") if n else "0", normalize=False, indices=nodes)) for k in range(2**n)])
    check(np.allclose(got, psi, atol=TOL * (1 + norm)) or ref.same_up_to_phase(got, psi, TOL * (1 + norm)), lambda: f"{what}: coefficients {got.tolist()} instead of {psi.tolist()}")
    if default:
        k = case["basis"] % 2**n
        for b in (k, format(k, f"0{n}b") if n else "0"):
            a = tn.basis_amplitude(b)
            check(abs(a - abs(psi[k] / norm) ** 2) < TOL, lambda: f"{what}: amplitude of {b}: {a}")  # noqa: B023
    if n:
        k = 1 + case["basis"] % min(n, 3)
        op = mat(case["op"][str(k)])
        if case["herm"]:
            op = op + op.conj().T
        pos = perm[:k]
        full = ref.embed(op, pos, n)
        f = psi / norm
        want = np.vdot(f, full @ f)
        got1 = tn.expectation_value(op, pos, output_node_indices=nodes)
        check(abs(got1 - want) < 1e-5 * (1 + np.abs(op).max()), lambda: f"{what}: expectation value {got1} of an operator on {pos} instead of {want}")
        order = [nodes[j] for j in perm]
        got2 = tn.expectation_value(op, list(range(k)), output_node_indices=order)
        check(abs(got2 - want) < 1e-5 * (1 + np.abs(op).max()), lambda: f"{what}: expectation value {got2} of an operator on the first of {order} instead of {want}")
        if default:
            got3 = tn.expectation_value(op, pos)
            check(abs(got3 - want) < 1e-5 * (1 + np.abs(op).max()), lambda: f"{what}: expectation value {got3} on {pos} of the default nodes instead of {want}")


def check_evolution(tn: Any, psi: np.ndarray, nodes: list[int], case: Any, info: Info) -> None:
    """Evolution of the network and of copies of it: none of them touches the others."""
    n = len(nodes)
    if not n:
        return
    info.label("evolution and copies")
    k = 1 + case["basis"] % min(n, 3)
    pos = sorted(range(n), key=lambda i: (case["perm"] >> (4 * i + 2)) % 16)[:k]
    u = unitary_of(case["op"][str(k)])
    a = tn.copy(deep=case["deep"])
    b = tn.copy()
    op1 = mat(case["op"]["1"])
    a.evolve(u, pos, decompose=case["decompose"])
    psi_a = ref.embed(u, pos, n) @ psi
    same_vec(dense(tn.to_statevector()), psi, "the original after its copy evolved")
    same_vec(dense(a.to_statevector()), psi_a, f"copy evolved on {pos}")
    if np.linalg.norm(ref.embed(op1, [0], n) @ psi) > 1e-3:
        b.evolve_single(nodes[0], op1)
        same_vec(dense(b.to_statevector()), ref.embed(op1, [0], n) @ psi, "copy after evolve_single")
        same_vec(dense(tn.to_statevector()), psi, "the original after evolve_single on its copy")
    tn.evolve(u.reshape((2,) * (2 * k)), pos, decompose=not case["decompose"])
    same_vec(dense(tn.to_statevector()), psi_a, f"evolved on {pos}")
    same_vec(dense(a.to_statevector()), psi_a, "a copy after the original evolved")
    tn.evolve_single(nodes[-1], ref.BASIS1["H"])
    same_vec(dense(tn.to_statevector()), ref.embed(ref.BASIS1["H"], [n - 1], n) @ psi_a, "evolve_single")
    same_vec(dense(a.to_statevector()), psi_a, "a copy after evolve_single on the original")


def extras(draw: Any) -> dict[str, Any]:
    return {"perm": draw(st.integers(0, 2**20 - 1)), "basis": draw(st.integers(0, 63)), "herm": draw(st.booleans()), "deep": draw(st.booleans()), "decompose": draw(st.booleans()),
            "op": {str(k): draw(operators(k)) for k in (1, 2, 3)}}


@st.composite
def views(draw: Any) -> dict[str, Any]:
    return {"pat": draw(gen.det_patterns(max_meas=4)), "prep": draw(st.sampled_from(["auto", "sequential"])), "std": draw(st.booleans()), "picks": draw(gen.picks()), **extras(draw)}


def views_oracle(case: Any, info: Info) -> None:
    p = conv.pattern(case["pat"])
    if case["std"]:
        p.standardize()
    d = conv.describe(p)
    ms = ref.measured(d["cmds"])
    psi0 = ref.kron_all([ref.STATES["PLUS"].reshape(-1, 1)] * len(d["in"])).reshape(-1)
    want = ref.branch_list(ms, 0, case["picks"])[0]
    final, log = c13.walk(d, psi0, lambda q, p0: want[q] if (p0 if want[q] == 0 else 1 - p0) > 1e-6 else 1 - want[q])
    tn = run(p, "tensornetwork", FixedBranchSelector({q: o for q, _, o in log}), graph_prep=case["prep"])
    info.nt(len(d["out"]) > 0 and len(ms) > 0)
    info.label(f"{len(d['out'])} outputs")
    final = final / np.linalg.norm(final)
    check(isinstance(tn, MBQCTensorNet) and list(tn.default_output_nodes) == d["out"], "default output nodes")
    check_views(tn, final * tn.norm(), d["out"], case, info, "simulated pattern", True)
    check_evolution(tn, final, d["out"], case, info)


NAMES = {"plus": "PLUS", "minus": "MINUS", "zero": "ZERO", "one": "ONE", "iplus": "PLUS_I", "iminus": "MINUS_I"}


@st.composite
def networks(draw: Any) -> dict[str, Any]:
    nodes = draw(gen.labels(5))
    n_graph = draw(st.integers(0, 3))
    pairs = [[nodes[i], nodes[j]] if draw(st.booleans()) else [nodes[j], nodes[i]] for i in range(n_graph) for j in range(i) if draw(st.booleans())]
    ops: list[list[Any]] = []
    live = nodes[:n_graph]
    free = nodes[n_graph:]
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.sampled_from(["add", "adds", "evolve1", "evolve1", "evolve", "measure", "project"]))
        if k == "add" and free and len(live) < 4:
            v = free.pop(0)
            ops.append(["add", v, draw(st.one_of(st.sampled_from(sorted(NAMES)), vecs(1)))])
            live.append(v)
        elif k == "adds" and len(free) >= 1 and len(live) < 3:
            m = min(len(free), draw(st.integers(1, 2)))
            vs = [free.pop(0) for _ in range(m)]
            form = draw(st.sampled_from(["one", "array", "list"]))
            s = draw(st.sampled_from(sorted(NAMES))) if form == "one" else draw(vecs(1)) if form == "array" else [draw(st.one_of(st.sampled_from(sorted(NAMES)), vecs(1))) for _ in vs]
            ops.append(["adds", vs, form, s])
            live += vs
        elif k == "evolve1" and live:
            ops.append(["evolve1", draw(st.sampled_from(live)), draw(operators(1))])
        elif k == "evolve" and live:
            m = draw(st.integers(1, min(3, len(live))))
            vs = list(draw(st.permutations(live)))[:m]
            ops.append(["evolve", vs, draw(operators(m)), draw(st.booleans())])
        elif k == "measure" and live:
            v = draw(st.sampled_from(live))
            ops.append(["measure", v, draw(st.sampled_from("XYZ")), draw(st.integers(0, 1)), draw(st.booleans())])
            live.remove(v)
        elif k == "project" and live:
            v = draw(st.sampled_from(live))
            ops.append(["project", v, draw(vecs(1))])
            live.remove(v)
    return {"nodes": nodes, "graph": nodes[:n_graph], "edges": pairs, "ops": ops, "live": live, **extras(draw)}


def reference_state(s: Any) -> np.ndarray:
    return ref.STATES[NAMES[s]] if isinstance(s, str) else vec(s)


def prepared(s: Any) -> Any:
    return s if isinstance(s, str) else vec(s)


def networks_oracle(case: Any, info: Info) -> None:
    out = case["live"]
    nodes = case["nodes"]
    wanted = {o[1]: o[3] for o in case["ops"] if o[0] == "measure"}
    sel = Script(lambda q: wanted.get(q, 0), eps=-1)
    tn = MBQCTensorNet(branch_selector=sel, graph_nodes=case["graph"], graph_edges=[tuple(e) for e in case["edges"]], default_output_nodes=nodes)
    r = ref.Reg.from_inputs([])
    for v in case["graph"]:
        r.add(v, ref.STATES["PLUS"])
    for a, b in case["edges"]:
        r.cz(a, b)
    for o in case["ops"]:
        if o[0] == "add":
            tn.add_qubit(o[1], prepared(o[2]))
            r.add(o[1], reference_state(o[2]))
        elif o[0] == "adds":
            s = o[3]
            tn.add_qubits(o[1], s if o[2] == "one" else vec(s) if o[2] == "array" else [prepared(x) for x in s])
            for i, v in enumerate(o[1]):
                r.add(v, reference_state(s[i] if o[2] == "list" else s))
        elif o[0] == "evolve1":
            tn.evolve_single(o[1], mat(o[2]))
            r.op([o[1]], mat(o[2]))
        elif o[0] == "evolve":
            tn.evolve(mat(o[2]), [nodes.index(v) for v in o[1]], decompose=o[3])
            r.op(o[1], mat(o[2]))
        elif o[0] == "measure":
            got = tn.measure_single(o[1], o[2], outcome=o[3]) if o[4] else tn.measure_single(o[1], o[2])
            check(got == o[3], lambda: f"measure_single returned {got} instead of {o[3]}")  # noqa: B023
            r.bra(o[1], ref.STATES[{"X": ["PLUS", "MINUS"], "Y": ["PLUS_I", "MINUS_I"], "Z": ["ZERO", "ONE"]}[o[2]][o[3]]])
        else:
            tn.measure_single(o[1], basis=vec(o[2]))
            r.bra(o[1], vec(o[2]))
    psi = r.matrix(out)[:, 0]
    if not case["graph"] and not any(o[0] in ("add", "adds") for o in case["ops"]):
        info.label("no nodes")
        return
    big = max([1.0, *(float(np.abs(mat(o[2])).max()) for o in case["ops"] if o[0] in ("evolve", "evolve1"))])
    info.nt(bool(case["ops"]) and bool(out))
    info.label(*{o[0] for o in case["ops"]})
    if np.linalg.norm(psi) < 1e-3 * big:
        info.label("vanishing state")
        return
    check_views(tn, psi, out, case, info, "network", False)
    if out:
        same = MBQCTensorNet(branch_selector=sel, ts=tn, default_output_nodes=out)
        check_views(same, psi, out, case, info, "network with other default nodes", True)
        check_evolution(same, psi, out, case, info)
        same_vec(dense(tn.to_statevector(indices=out)), psi, "the network a copy was made of")


def rejections_oracle(case: Any, info: Info) -> None:
    info.nt()
    tn = MBQCTensorNet(branch_selector=ConstBranchSelector(0))
    tn.add_qubit(3)
    what = case["what"]
    p = conv.pattern({"in": [0], "cmds": [["N", 1, "PLUS"], ["E", 0, 1], ["M", 0, ["B", "XY", 0.3], [], []], ["X", 1, [0]]], "out": [1]})
    fns: dict[str, tuple[Any, Any]] = {
        "state name": (TypeError, lambda: tn.add_qubit(1, "plusminus")),
        "state shape": (ValueError, lambda: tn.add_qubit(1, np.array([1, 0, 0, 0]))),
        "state norm": (ValueError, lambda: tn.add_qubit(1, np.array([1, 1]))),
        "basis": (ValueError, lambda: tn.measure_single(3, "W")),
        "probabilities": (NotImplementedError, lambda: tn.measure_single(3, "Z", bypass_probability_calculation=False)),
        "no default nodes": (ValueError, lambda: tn.to_statevector()),
        "preparation": (ValueError, lambda: run(p, "tensornetwork", None, graph_prep="upside-down")),
        "input": (NotImplementedError, lambda: TensorNetworkBackend(p, input_state=BasicStates.ZERO)),
        "simulated input": (NotImplementedError, lambda: run(p, "tensornetwork", None, input_state=BasicStates.ZERO)),
        "noise": (ValueError, lambda: run(p, "tensornetwork", None, noise_model=__import__("graphix.noise_models", fromlist=["x"]).DepolarisingNoiseModel())),
    }
    exc, fn = fns[what]
    check(raises(exc, fn) is not None, f"{what}: not rejected")
    info.label(what)


@st.composite
def large(draw: Any) -> dict[str, Any]:
    n = draw(st.integers(6, 12))
    return {"n": n, "hidden": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 2**32)), "density": draw(st.sampled_from([0.1, 0.2, 0.35])), "how": draw(st.sampled_from(["network", "pattern", "sequential"])), **extras(draw)}


def large_oracle(case: Any, info: Info) -> None:
    """Networks with 6 to 12 open nodes among up to 15."""
    r = random.Random(case["seed"])
    n, total = case["n"], case["n"] + case["hidden"]
    nodes = r.sample(range(40), total)
    edges = [(a, b) for i, a in enumerate(nodes) for b in nodes[:i] if r.random() < case["density"]]
    hidden = r.sample(nodes, case["hidden"])
    out = [v for v in nodes if v not in hidden]
    r.shuffle(out)
    reg = ref.Reg.from_inputs([])
    for v in nodes:
        reg.add(v, ref.STATES["PLUS"])
    for a, b in edges:
        reg.cz(a, b)
    turned = [v for v in nodes if r.random() < 0.5]
    if case["how"] == "network":
        tn = MBQCTensorNet(branch_selector=ConstBranchSelector(0), graph_nodes=nodes, graph_edges=edges, default_output_nodes=out)
        for v in turned:
            tn.evolve_single(v, ref.BASIS1["H"])
            reg.op([v], ref.BASIS1["H"])
        for v in hidden:
            basis = r.choice("XYZ")
            outcome = r.randrange(2)
            tn.measure_single(v, basis, outcome=outcome)
            reg.bra(v, ref.STATES[{"X": ["PLUS", "MINUS"], "Y": ["PLUS_I", "MINUS_I"], "Z": ["ZERO", "ONE"]}[basis][outcome]])
    else:
        wanted: dict[int, int] = {}
        cmds: list[list[Any]] = [["N", v, "PLUS"] for v in nodes] + [["E", a, b] for a, b in edges]
        for v in hidden:
            angle = r.choice([0.1, 0.25, 0.7, -0.4])
            wanted[v] = r.randrange(2)
            cmds.append(["M", v, ["B", "XY", angle], [], []])
            e = np.exp(1j * np.pi * angle) * (-1) ** wanted[v]
            reg.bra(v, np.array([1, e]) / np.sqrt(2))
        for v in out:
            if v in turned:
                cmds.append(["Z", v, []] if not hidden else ["X", v, [r.choice(hidden)]])
                if hidden and wanted[cmds[-1][2][0]]:
                    reg.op([v], ref.BASIS1["X"])
        p = conv.pattern({"in": [], "cmds": cmds, "out": out})
        tn = run(p, "tensornetwork", FixedBranchSelector(wanted), graph_prep="sequential" if case["how"] == "sequential" else "auto")
    psi = reg.matrix(out)[:, 0]
    norm = np.linalg.norm(psi)
    if norm < 1e-3:
        info.label("vanishing state")
        return
    info.nt(bool(edges))
    info.label(case["how"], f"{n} open nodes")
    psi = psi / norm
    perm = r.sample(range(n), n)
    what = f"graph {edges} on {nodes}, measured {hidden}, open {out}"
    order = [out[k] for k in perm]
    moved = psi.reshape((2,) * n).transpose(perm).reshape(-1)
    ks = [int(k) for k in np.argsort(-np.abs(psi) + 1e-3 * np.random.default_rng(case["seed"]).random(2**n))[:3]] + [r.randrange(2**n)]

    def coefficients(net: Any, ref_psi: np.ndarray, label: str, **kw: Any) -> None:
        where = [int(k) for k in np.argsort(-np.abs(ref_psi), kind="stable")[:2]] + [r.randrange(2**n) for _ in range(3)]
        c = np.array([complex(net.basis_coefficient(k, normalize=False, **kw)) for k in where])
        w = ref_psi[where]
        check(np.allclose(c * w[0], w * c[0], atol=TOL) and abs(c[0]) > 0, lambda: f"{what}: {label}: coefficients of {where} are {c.tolist()} instead of {w.tolist()} up to a factor")

    coefficients(tn, psi, "default order")
    coefficients(tn, moved, f"order {order}", indices=order)
    got = complex(tn.basis_coefficient(ks[0], indices=out))
    check(abs(abs(got) - abs(psi[ks[0]])) < TOL, lambda: f"{what}: normalised coefficient of {ks[0]}: {got} instead of {psi[ks[0]]}")
    ks = ks[2:]
    got = np.array([tn.basis_amplitude(k if r.random() < 0.5 else format(k, f"0{n}b")) for k in ks])
    check(np.allclose(got, np.abs(psi[ks]) ** 2, atol=TOL), lambda: f"{what}: amplitudes {ks}: {got.tolist()} instead of {(np.abs(psi[ks]) ** 2).tolist()}")
    for k in (1, 2, 3):
        op = mat(case["op"][str(k)])
        pos = r.sample(range(n), k)
        want = np.vdot(psi, apply_op(op, pos, psi))
        g = tn.expectation_value(op, pos)
        check(abs(g - want) < 1e-5 * (1 + np.abs(op).max()), lambda: f"{what}: expectation value {g} of an operator on {pos} instead of {want}")  # noqa: B023
    k = r.randint(1, 3)
    pos = r.sample(range(n), k)
    u = unitary_of(case["op"][str(k)])
    other = tn.copy(deep=case["deep"])
    other.evolve(u, pos, decompose=case["decompose"])
    coefficients(other, apply_op(u, pos, psi), f"evolved on {pos}")
    coefficients(tn, psi, "the original after its copy evolved")


def apply_op(op: np.ndarray, pos: list[int], psi: np.ndarray) -> np.ndarray:
    n, k = int(np.log2(psi.size)), len(pos)
    t = np.tensordot(op.reshape((2,) * (2 * k)), psi.reshape((2,) * n), axes=(list(range(k, 2 * k)), pos))
    return np.moveaxis(t, list(range(k)), pos).reshape(-1)


REJECTIONS = ["state name", "state shape", "state norm", "basis", "probabilities", "no default nodes", "preparation", "input", "simulated input", "noise"]

SUBS = [
    Sub("patterns", patterns, oracle, 800, 12000, shards=8, rule="at least one measurement and one entanglement"),
    Sub("inputs", inputs, no_inputs_oracle, 800, 16000, shards=4, rule="at least one input and one measurement"),
    Sub("views", views, views_oracle, 400, 8000, shards=8, rule="at least one output and one measured node"),
    Sub("networks", networks, networks_oracle, 800, 12000, shards=8, rule="at least one operation and one open node"),
    Sub("large", large, large_oracle, 240, 4000, shards=8, rule="at least one edge"),
    Sub("rejections", lambda: st.sampled_from([{"what": w} for w in REJECTIONS]), rejections_oracle, 10, 10, shards=1, enumerate=lambda tier: [{"what": w} for w in REJECTIONS]),
]
