"""C03: circuit simulation and circuit rewrites keep the circuit's meaning."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from graphix import instruction as ins
from graphix import transpiler as tr
from graphix.instruction import InstructionKind
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import Script, psi_of, raises, same_state, vec, vecs

OUTKIND = getattr(tr, "OutputKind")


def _maps(c):  # noqa: ANN001
    n_m = sum(1 for o in c["ops"] if o[0] == "M")
    return {bits: ref.circuit_map(c["w"], c["ops"], bits)[0] for bits in itertools.product((0, 1), repeat=n_m)}


def _same_meaning(c, q, what: str) -> None:  # noqa: ANN001
    d = conv.describe_circuit(q)
    check(d["w"] == c["w"], f"{what}: width changed")
    a, b = _maps(c), _maps(d)
    check(a.keys() == b.keys(), f"{what}: number of measurements changed")
    for bits in a:
        if not ref.same_up_to_phase(a[bits], b[bits]):
            raise Fail(f"{what}: another map for outcomes {bits}: {d['ops']}")


def simulate(case, info: Info) -> None:  # noqa: ANN001
    c = case["circ"]
    v = vec(case["vec"])[: 2 ** c["w"]]
    v = v / np.linalg.norm(v) if np.linalg.norm(v) > 0.1 else np.eye(2 ** c["w"])[0]
    q = conv.circuit(c)
    m_targets = [o[1] for o in c["ops"] if o[0] == "M"]
    want = {t: case["bits"][i % len(case["bits"])] for i, t in enumerate(m_targets)}
    default_input = case["default"]
    if default_input:
        v = ref.kron_all([ref.STATES["PLUS"].reshape(2, 1)] * c["w"]).reshape(-1)
    for backend in ("statevector", "densitymatrix"):
        sel = Script(want)
        data = None if default_input else Statevector(v)
        r = q.simulate(backend, input_state=data, branch_selector=sel)
        check([x[0] for x in sel.log] == m_targets, f"measured qubits {sel.log} instead of {m_targets}")
        bits = tuple(int(x) for x in r.classical_measures)
        check(bits == tuple(sel.outcomes[t] for t in m_targets), f"classical_measures {bits} are not the outcomes {sel.log}")
        # Born rule: conditional probabilities
        for i in range(len(m_targets)):
            def prob(prefix):  # noqa: ANN001, ANN202
                k = 0
                cut = []
                for o in c["ops"]:
                    if o[0] == "M":
                        if k == len(prefix):
                            break
                        k += 1
                    cut.append(o)
                m, _ = ref.circuit_map(c["w"], cut, prefix, vec=v)
                return float(np.sum(np.abs(m) ** 2))
            den = prob(bits[:i])
            num = prob((*bits[:i], 0))
            p0 = sel.log[i][1]
            check(abs(p0 - num / den) < 1e-6, f"{backend}: probability of outcome 0 for measurement {i} is {p0}, expected {num / den}")
        m, rest = ref.circuit_map(c["w"], c["ops"], bits, vec=v)
        m = m.reshape(-1)
        m = m / np.linalg.norm(m)
        if backend == "statevector":
            check(same_state(psi_of(r.state), m), lambda: f"simulated state {np.round(psi_of(r.state), 4)} instead of {np.round(m, 4)}")
            check(abs(np.linalg.norm(psi_of(r.state)) - 1) < 1e-6, "state not normalised")
        else:
            assert isinstance(r.state, DensityMatrix)
            check(np.allclose(r.state.rho, np.outer(m, m.conj()), atol=1e-6), lambda: f"density matrix differs from the pure state {np.round(m, 4)}: {np.round(r.state.rho, 4)}")
    info.label(f"w{c['w']}", f"meas{len(m_targets)}")
    info.nt(len(c["ops"]) >= 2)


def rewrites(case, info: Info) -> None:  # noqa: ANN001
    c = case["circ"]
    q = conv.circuit(c)
    src = repr(q.instruction)

    # rewrite chain on copies
    cur = q
    for r in case["chain"]:
        before = repr(cur.instruction)
        if r == "zaxis":
            nxt = cur.transpile_measurements_to_z_axis()
            check(all(i.kind != InstructionKind.M or i.axis.name == "Z" for i in nxt.instruction), "a measurement is not on the Z axis")
        elif r == "jrzh":
            nxt = cur.transpile_j_to_rzh()
            check(all(i.kind != InstructionKind.J for i in nxt.instruction), "a J gate is left")
        elif r == "shift":
            nxt = cur.apply_angle(lambda a: a + 4, copy=True)
        elif r == "visit":
            nxt = cur.visit(ins.InstructionVisitor(), copy=True)
        else:
            raise AssertionError(r)
        check(repr(cur.instruction) == before, f"rewrite {r} changed its argument")
        _same_meaning(c, nxt, f"rewrite {r} in chain {case['chain']}")
        if any(i.kind == InstructionKind.M for i in nxt.instruction):
            info.label("measured")
        # rewriting the result in place leaves the argument alone
        after = repr(nxt.instruction)
        keep = nxt.visit(ins.InstructionVisitor(), copy=True)
        nxt.apply_angle(lambda a: a + 1)
        check(repr(cur.instruction) == before, f"rewriting the result of {r} in place changed its argument")
        nxt = keep
        check(repr(nxt.instruction) == after, "a copy changed with its original")
        probe = nxt.visit(ins.InstructionVisitor(), copy=True)
        measured = {o[1] for o in c["ops"] if o[0] == "M"}
        for qb in range(c["w"]):
            err = raises(AssertionError, lambda: probe.x(qb))
            check((err is not None) == (qb in measured), f"after {r}: qubit {qb} {'rejected' if err else 'accepted'} though measured qubits are {measured}")
        cur = nxt
    # in-place angle shift on a private copy does not touch the source
    priv = cur.visit(ins.InstructionVisitor(), copy=True)
    saved = repr(cur.instruction)
    got = priv.apply_angle(lambda a: -a)
    check(got is priv, "apply_angle without copy must return its object")
    check(repr(cur.instruction) == saved, "in-place angle rewrite of a copy changed the original")
    neg = dict(c)
    # (meaning of the in-place one)
    d0, d1 = conv.describe_circuit(cur), conv.describe_circuit(priv)
    for o0, o1 in zip(d0["ops"], d1["ops"], strict=True):
        if o0[0] in ("RX", "RY", "RZ", "J", "RZZ"):
            check(abs(o0[-1] + o1[-1]) < 1e-12, "apply_angle did not map an angle")
        else:
            check(o0 == o1, "apply_angle changed a gate without angle")
    check(repr(q.instruction) == src, "a rewrite changed the source circuit")
    info.nt(len(c["ops"]) >= 2 and len(case["chain"]) >= 2)


def swaps(case, info: Info) -> None:  # noqa: ANN001
    c = case["circ"]
    q = conv.circuit(c)
    src = repr(q.instruction)
    res = tr.transpile_swaps(q, copy=True)
    check(repr(q.instruction) == src, "transpile_swaps(copy=True) changed its argument")
    d = conv.describe_circuit(res.circuit)
    check(all(o[0] != "SWAP" for o in d["ops"]), "a SWAP is left")
    check(d["w"] == c["w"] and len(res.outputs) == c["w"], "width")
    qubit_of = {i: o.index for i, o in enumerate(res.outputs) if o.kind == OUTKIND.Qubit}
    bit_of = {i: o.index for i, o in enumerate(res.outputs) if o.kind == OUTKIND.Bit}
    mt = [o[1] for o in c["ops"] if o[0] == "M"]
    # every measured qubit of the original circuit is reported with the index of its measurement
    check(bit_of == {t: i for i, t in enumerate(mt)}, f"measured qubits reported as {bit_of}, measurements are on {mt}")
    a = _maps(c)
    for bits, m in a.items():
        m2, rest2 = ref.circuit_map(d["w"], d["ops"], bits)
        check(sorted(qubit_of.values()) == rest2, f"outputs {qubit_of} do not cover the unmeasured qubits {rest2}")
        k = len(rest2)
        # output of original qubit i is found on qubit_of[i]
        t = m2.reshape((2,) * k + (-1,))
        perm = [rest2.index(qubit_of[i]) for i in sorted(qubit_of)] + [k]
        m2 = t.transpose(perm).reshape(2**k, -1)
        check(ref.same_up_to_phase(m, m2), f"outcomes {bits}: swap-free circuit with outputs {res.outputs} is not equivalent")
    out_nodes = [100 + x for x in rest2]
    check(list(res.swap_output_nodes(out_nodes)) == [100 + qubit_of[i] for i in sorted(qubit_of)],
          "swap_output_nodes does not restore the order of the original qubits")
    check(list(res.extract_outputs(OUTKIND.Qubit)) == [qubit_of[i] for i in sorted(qubit_of)], "extract_outputs(Qubit)")
    # in place
    q2 = conv.circuit(c)
    res2 = tr.transpile_swaps(q2)
    check(res2.circuit is q2, "transpile_swaps in place must return its argument")
    check(repr(q2.instruction) == repr(res.circuit.instruction), "in-place and copying swap removal differ")
    check(tuple(res2.outputs) == tuple(res.outputs), "in-place and copying swap removal report different outputs")
    if c["w"] - len(mt):
        # the rewritten circuit can be extended on exactly its live qubits
        for r in (res.circuit, res2.circuit):
            for t in rest2:
                r.x(t)
    n_swap = sum(1 for o in c["ops"] if o[0] == "SWAP")
    info.label(f"swaps{min(n_swap, 4)}", f"meas{len(mt)}")
    info.nt(n_swap >= 1 and len(c["ops"]) >= 3)


def decompositions(case, info: Info) -> None:  # noqa: ANN001
    op = case["op"]
    k = op[0]
    fn = {"RZZ": tr.decompose_rzz, "CCX": tr.decompose_ccx, "CNOT": tr.decompose_cnot, "SWAP": tr.decompose_swap,
          "Y": tr.decompose_y, "RX": tr.decompose_rx, "RY": tr.decompose_ry, "RZ": tr.decompose_rz}
    q = conv.circuit({"w": 3, "ops": [op]})
    (i,) = q.instruction
    U, _ = ref.circuit_map(3, [op])
    if k in fn:
        V, _ = ref.circuit_map(3, [conv.gate_desc(x) for x in fn[k](i)])
        check(ref.same_up_to_phase(U, V), f"decomposition of {op} is wrong")
    got = list(tr.instructions_to_jcz([i]))
    check(all(x.kind in (InstructionKind.J, InstructionKind.CZ) for x in got), "not a J-CZ circuit")
    V, _ = ref.circuit_map(3, [conv.gate_desc(x) for x in got])
    check(ref.same_up_to_phase(U, V), f"J-CZ form of {op} is wrong")
    info.label(k)
    info.nt()


@st.composite
def one_gate(draw):  # noqa: ANN001
    c = draw(gen.circuits(min_width=3, max_width=3, min_ops=1, max_ops=1))
    return {"op": c["ops"][0]} if c["ops"] else {"op": ["H", 0]}


def sim_case(large=False):  # noqa: ANN001, ANN201
    return st.fixed_dictionaries({"circ": big.seeded(big.circuit, 15, 70, min_width=2, max_width=3, measure=2) if large else gen.circuits(max_width=3, max_ops=8, measure=True), "vec": vecs(3), "default": st.sampled_from([False, False, True]),
                                  "bits": st.lists(st.integers(0, 1), min_size=3, max_size=3)})


SUBS = [
    Sub("simulate", sim_case, simulate, quick=4000, thorough=60000, shards=3,
        rule="circuits with measurements on entangled inputs, both dense backends, prescribed outcomes; non-trivial: >=2 gates"),
    Sub("rewrites", lambda: st.fixed_dictionaries({"circ": gen.circuits(max_width=3, max_ops=8, measure=True, gates=[*gen.ALL_GATES, "J", "J"]),
                                                   "chain": st.lists(st.sampled_from(["zaxis", "jrzh", "shift", "visit"]), min_size=1, max_size=4)}),
        rewrites, quick=3000, thorough=40000, shards=2, rule="chains of rewrites; non-trivial: >=2 gates and >=2 rewrites"),
    Sub("swaps", lambda: st.fixed_dictionaries({"circ": gen.circuits(max_width=4, min_width=2, max_ops=9, measure=True, gates=["SWAP", "SWAP", "SWAP", "SWAP", "H", "RZ", "CNOT", "RX"])}),
        swaps, quick=3000, thorough=40000, shards=2, rule="SWAP-heavy circuits with measurements; non-trivial: a SWAP among >=3 instructions"),
    Sub("decompositions", one_gate, decompositions, quick=1500, thorough=15000, shards=1, rule="one gate of each kind with random operands; all non-trivial"),
    Sub("large", lambda: sim_case(large=True), simulate, quick=250, thorough=6000, shards=4, rule="as simulate, 15-70 gates"),
    Sub("large rewrites", lambda: st.fixed_dictionaries({"circ": big.seeded(big.circuit, 15, 60, min_width=2, measure=3, gates=[*gen.ALL_GATES, "J", "SWAP"], ccx=3),
                                                         "chain": st.lists(st.sampled_from(["zaxis", "jrzh", "shift", "visit"]), min_size=1, max_size=4)}),
        rewrites, quick=250, thorough=6000, shards=4, rule="as rewrites, 15-60 gates"),
]
