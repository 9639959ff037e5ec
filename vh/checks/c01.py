"""C01: transpiled patterns implement the circuit on every branch."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check


def _cmp(pattern, U, picks, info: Info, what: str) -> None:  # noqa: ANN001
    pattern.check_runnability()
    d = conv.describe(pattern)
    n = U.shape[0].bit_length() - 1
    check(len(d["in"]) == n and len(d["out"]) == n, f"{what}: {len(d['in'])} inputs, {len(d['out'])} outputs for a circuit of width {n}")
    ms = ref.measured(d["cmds"])
    scale = 2 ** (-len(ms) / 2)
    for b in ref.branch_list(ms, 4, picks):
        m = ref.run_branch(d, b)
        info.extra += 1
        if not ref.same_up_to_phase(m / scale, U, 1e-6):
            raise Fail(f"{what}: branch {b} implements\n{np.round(m / scale, 4).tolist()}\ninstead of\n{np.round(U, 4).tolist()}")


def oracle(case, info: Info) -> None:  # noqa: ANN001
    c = case["circ"]
    U, rest = ref.circuit_map(c["w"], c["ops"])
    q = conv.circuit(c)
    before = repr(q.instruction)
    for swaps in (True, False):
        t = q.transpile(transpile_swaps=swaps)
        check(tuple(t.classical_outputs) == (), "classical outputs reported for a circuit without measurement")
        _cmp(t.pattern, U, case["picks"], info, f"transpile(transpile_swaps={swaps})")
    check(repr(q.instruction) == before, "transpile modified its circuit")
    f = q.transpile_to_causalflow()
    check(f.flow.is_well_formed(), "transpile_to_causalflow returned an ill-formed flow")
    check(not f.classical_outputs, "classical outputs reported")
    _cmp(f.to_pattern().pattern, U, case["picks"], info, "transpile_to_causalflow().to_pattern()")
    if case.get("alt"):
        _cmp(f.flow.to_xzcorrections().to_pattern(), U, case["picks"], info, "flow.to_xzcorrections().to_pattern()")
    kinds = {o[0] for o in c["ops"]}
    for k in kinds:
        info.label(k)
    info.label(f"width{c['w']}")
    info.nt(len(c["ops"]) >= 2 and len(kinds) >= 2)


def case(**kw):  # noqa: ANN003
    return st.fixed_dictionaries({"circ": gen.circuits(**kw), "picks": gen.picks(), "alt": st.booleans()})


def each_gate(tier):  # noqa: ANN001
    """Every gate alone on every placement, and every ordered pair of gates on one or two qubits."""
    angles = [0.0, 0.5, 1.0, -0.25, 0.3137, 2.75]
    single = []
    for w in (1, 2, 3):
        for g in gen.GATES1:
            single += [(w, [g, t]) for t in range(w)]
        for g in gen.GATESR:
            single += [(w, [g, t, a]) for t in range(w) for a in angles]
        if w >= 2:
            for a in range(w):
                for b in range(w):
                    if a != b:
                        single += [(w, [g, a, b]) for g in gen.GATES2]
                        single += [(w, ["RZZ", a, b, th]) for th in angles[2:5]]
    import itertools
    single += [(3, ["CCX", *p]) for p in itertools.permutations(range(3))]
    for w, op in single:
        yield {"circ": {"w": w, "ops": [op]}, "picks": [5, 1234, 99999], "alt": False}
    two = [op for w, op in single if w <= 2 and all(not isinstance(x, float) or x == 0.3137 for x in op)]
    for a in two:
        for b in two:
            yield {"circ": {"w": 2, "ops": [a, b]}, "picks": [5, 1234], "alt": False}


SUBS = [
    Sub("circuits", lambda: case(max_width=3, max_ops=7), oracle, quick=4000, thorough=60000, shards=5,
        rule="random circuits (width<=3, <=7 gates of all 12 kinds); non-trivial: >=2 gates of >=2 kinds"),
    Sub("wide", lambda: case(max_width=4, min_width=3, max_ops=9, gates=["H", "S", "CNOT", "CZ", "SWAP", "RZ", "J", "RX", "I", "X", "RZZ"]), oracle,
        quick=2000, thorough=30000, shards=4, rule="width 3-4, <=9 gates, no Toffoli; same non-triviality"),
    Sub("each_gate", lambda: None, oracle, quick=0, shards=4, enumerate=each_gate,
        rule="all single gates on all placements (width<=3) and all ordered pairs of gates (width 2); non-trivial: two different kinds"),
    Sub("large", lambda: st.fixed_dictionaries({"circ": big.seeded(big.circuit, 10, 45), "picks": gen.picks(), "alt": st.booleans()}), oracle, quick=160, thorough=5000, shards=6,
        rule="width 3-5, 10-45 gates (patterns of up to some 150 nodes), sampled branches; same non-triviality"),
]
