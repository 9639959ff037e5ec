"""C02: circuit measurements survive transpilation with the right outcomes."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check


def oracle(case, info: Info) -> None:  # noqa: ANN001
    c = case["circ"]
    w, ops = c["w"], c["ops"]
    n_m = sum(1 for o in ops if o[0] == "M")
    ref_maps = {bits: ref.circuit_map(w, ops, bits)[0] for bits in itertools.product((0, 1), repeat=n_m)}
    q = conv.circuit(c)
    for what in ("swaps", "noswaps", "flow"):
        if what == "flow":
            t = q.transpile_to_causalflow().to_pattern()
        else:
            t = q.transpile(transpile_swaps=what == "swaps")
        t.pattern.check_runnability()
        d = conv.describe(t.pattern)
        cl = list(t.classical_outputs)
        ms = ref.measured(d["cmds"])
        check(len(cl) == n_m and len(set(cl)) == n_m, f"{what}: {len(cl)} classical outputs for {n_m} measurements")
        check(set(cl) <= set(ms), f"{what}: classical outputs {cl} are not all measured")
        check(len(d["out"]) == w - n_m, f"{what}: {len(d['out'])} outputs for {w - n_m} unmeasured qubits")
        others = [n for n in ms if n not in cl]
        scale = 2 ** (-len(others) / 2)
        for bits, U in ref_maps.items():
            for b in ref.branch_list(others, 2, case["picks"][:2]):
                b = {**b, **dict(zip(cl, bits))}
                m = ref.run_branch(d, b)
                info.extra += 1
                if not ref.same_up_to_phase(m / scale, U, 1e-6):
                    raise Fail(f"{what}: with circuit outcomes {bits} (classical outputs {cl}), branch {b}: pattern implements\n{np.round(m / scale, 4).tolist()}\ninstead of\n{np.round(U, 4).tolist()}")
    kinds = {o[0] for o in ops}
    info.label(f"measurements{n_m}")
    first_m = next((i for i, o in enumerate(ops) if o[0] == "M"), len(ops))
    if "SWAP" in kinds and n_m:
        info.label("swap+measurement")
    if any(o[0] == "SWAP" for o in ops[first_m:]):
        info.label("swap after measurement")
    info.nt(n_m >= 1 and len(ops) > n_m)


@st.composite
def circ(draw, **kw):  # noqa: ANN001, ANN003
    c = draw(gen.circuits(measure=True, **kw))
    if draw(st.booleans()):
        # make sure something is measured
        live = [x for x in range(c["w"]) if not any(o[0] == "M" and o[1] == x for o in c["ops"])]
        if live:
            c["ops"].append(["M", live[draw(st.integers(0, len(live) - 1))], draw(st.sampled_from(gen.AXES))])
    return {"circ": c, "picks": draw(gen.picks())}


SUBS = [
    Sub("small", lambda: circ(max_width=3, max_ops=7, gates=["SWAP", "SWAP", "H", "S", "CNOT", "CZ", "RX", "RY", "RZ", "J", "X", "Y", "Z", "I", "RZZ"]), oracle,
        quick=4000, thorough=60000, shards=4, rule="random circuits with X/Y/Z measurements and SWAPs; non-trivial: at least one measurement and one gate"),
    Sub("swaps", lambda: circ(max_width=4, min_width=2, max_ops=9, gates=["SWAP", "SWAP", "SWAP", "H", "RZ", "CZ"]), oracle,
        quick=2500, thorough=40000, shards=4, rule="SWAP-heavy circuits of width <=4 with measurements; same non-triviality"),
    Sub("large", lambda: st.fixed_dictionaries({"circ": big.seeded(big.circuit, 10, 35, measure=3, ccx=0), "picks": gen.picks()}), oracle, quick=120, thorough=4000, shards=6,
        rule="width 3-5, 10-35 gates, up to 3 measurements; same non-triviality"),
]
