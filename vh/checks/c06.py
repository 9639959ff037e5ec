"""C06: Pauli pushing and Pauli-measurement removal preserve the computation."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from graphix.optimization import StandardizedPattern
from graphix.pattern import shift_outcomes
from graphix.remove_pauli_measurements import PauliPushingCut, remove_pauli_measurements
from vh import big, conv, gen, ref
from vh.core import Discard, Fail, Info, Sub, check
from vh.util import compare_branches, deterministic_map


def _cmds(d, k):  # noqa: ANN001, ANN202
    return [c for c in d["cmds"] if c[0] == k]


def _pushed_shape(d, d2, leave) -> int:  # noqa: ANN001
    """Pauli measurements outside ``leave`` come first, with empty domains; the others keep their order."""
    ms, ms2 = _cmds(d, "M"), _cmds(d2, "M")
    pushed = [c for c in ms if c[2][0] == "P" and c[1] not in leave]
    rest = [c for c in ms if not (c[2][0] == "P" and c[1] not in leave)]
    k = len(pushed)
    check({c[1] for c in ms2[:k]} == {c[1] for c in pushed}, f"Pauli measurements {[c[1] for c in pushed]} are not the first ones of {[c[1] for c in ms2]}")
    check([c[1] for c in ms2[k:]] == [c[1] for c in rest], "order of the other measurements changed")
    for c in ms2[:k]:
        check(not c[3] and not c[4], f"pushed Pauli measurement still depends on outcomes: {c}")
    return k


def pushing(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    ms = ref.measured(d["cmds"])
    leave = {n for i, n in enumerate(ms) if (case["leave"] >> i) & 1} if case["use_leave"] else None
    sp = StandardizedPattern.from_pattern(p)
    dstd = conv.describe(sp.to_pattern())
    cut = PauliPushingCut.from_standardizedpattern(sp, leave)
    check(conv.freeze(p) == before and conv.describe(sp.to_pattern())["cmds"].__len__() == len(dstd["cmds"]), "argument changed")
    d2 = conv.describe(cut.to_standardizedpattern().to_pattern())
    k = _pushed_shape(dstd, d2, leave or set())
    check([m.node for m in cut.pauli_measurements] == [c[1] for c in _cmds(d2, "M")[:k]], "pauli_measurements of the cut")
    compare_branches(d, d2, case["picks"], info, "Pauli pushing", translate=lambda b: shift_outcomes(b, cut.shifted_domains))
    for standardize in (False, True):
        q = p.perform_pauli_pushing(leave_nodes=leave, copy=True, standardize=standardize)
        check(conv.freeze(p) == before, "perform_pauli_pushing(copy=True) changed its argument")
        q.check_runnability()
        if standardize:
            check(q.is_standard(), "not standard though standardize=True")
        dq = conv.describe(q)
        _pushed_shape(dstd, dq, leave or set())
        compare_branches(d, dq, case["picks"][:2], info, f"perform_pauli_pushing(standardize={standardize})", translate=lambda b: shift_outcomes(b, cut.shifted_domains), limit_bits=3)
        r = p.copy()
        ret = r.perform_pauli_pushing(leave_nodes=leave, standardize=standardize)
        check(ret is r, "in-place variant must return its pattern")
        check(conv.freeze(r) == conv.freeze(q), "in-place and copying variants differ")
    check(not _cmds(d2, "M") or True)
    info.label(f"pushed{min(k, 4)}", "leave" if leave else "all")
    deps = any(c[2][0] == "P" and (c[3] or c[4]) and c[1] not in (leave or ()) for c in _cmds(dstd, "M"))
    info.label("dependent" if deps else "independent")
    info.nt(deps and k >= 1)


def removal(case, info: Info) -> None:  # noqa: ANN001
    """Deterministic patterns: same map, no non-input Pauli measurement left."""
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    n_pauli = sum(1 for c in _cmds(d, "M") if c[2][0] == "P" and c[1] not in d["in"])
    m0 = ref.branch(d, dict.fromkeys(ref.measured(d["cmds"]), 0))
    for standardize in (False, True):
        q = p.remove_pauli_measurements(copy=True, standardize=standardize)
        check(conv.freeze(p) == before, "remove_pauli_measurements(copy=True) changed its argument")
        _removed(d, q, m0, case, info, f"remove_pauli_measurements(standardize={standardize})", all_removed=True)
        if standardize:
            check(q.is_standard(), "not standard though standardize=True")
        r = p.copy()
        check(r.remove_pauli_measurements(standardize=standardize) is r, "in-place variant must return its pattern")
        _removed(d, r, m0, case, info, "in-place remove_pauli_measurements", all_removed=True)
    s = remove_pauli_measurements(PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p)))
    _removed(d, s.to_pattern(), m0, case, info, "remove_pauli_measurements(cut)", all_removed=True)
    info.label(f"paulis{min(n_pauli, 5)}", f"nonpauli{min(len(_cmds(d, 'M')) - n_pauli, 4)}", f"in{len(d['in'])}")
    info.nt(n_pauli >= 1 and len(_cmds(d, "M")) >= 2)


def _removed(d, q, m0, case, info, what, all_removed):  # noqa: ANN001, ANN202
    q.check_runnability()
    d2 = conv.describe(q)
    check(d2["in"] == d["in"], f"{what}: inputs changed")
    check(len(d2["out"]) == len(d["out"]), f"{what}: number of outputs changed")
    if all_removed:
        left = [c for c in _cmds(d2, "M") if c[2][0] == "P" and c[1] not in d["in"]]
        check(not left, f"{what}: Pauli measurements left: {left}")
        m = deterministic_map(d2, case["picks"], info, what, limit_bits=4)
    else:
        for c in _cmds(d2, "M"):
            if c[2][0] == "P" and c[2][1] in "YZ" and c[1] not in d["in"]:
                n = [x for x in _cmds(d, "N") if x[1] == c[1]]
                check(bool(n) and n[0][2] != "PLUS", f"{what}: {c} left")
        m = ref.branch(d2, dict.fromkeys(ref.measured(d2["cmds"]), 0))
    if not ref.prop_to(m, m0):
        raise Fail(f"{what}: another map\noriginal {np.round(m0, 4).tolist()}\nresult   {np.round(m, 4).tolist()}\n{q}")


def branch0(case, info: Info) -> None:  # noqa: ANN001
    """Any pattern: the branch of outcomes 0 is preserved up to normalisation."""
    d = case["pat"]
    m0 = ref.branch(d, dict.fromkeys(ref.measured(d["cmds"]), 0))
    if np.linalg.norm(m0) < 1e-5:
        raise Discard
    p = conv.pattern(d)
    before = conv.freeze(p)
    q = p.remove_pauli_measurements(copy=True)
    check(conv.freeze(p) == before, "remove_pauli_measurements(copy=True) changed its argument")
    _removed(d, q, m0, case, info, "remove_pauli_measurements", all_removed=False)
    n_pauli = sum(1 for c in _cmds(d, "M") if c[2][0] == "P" and c[1] not in d["in"])
    info.label(f"paulis{min(n_pauli, 5)}", "states" if any(c[2] != "PLUS" for c in _cmds(d, "N")) else "plus")
    info.nt(n_pauli >= 1 and len(ref.measured(d["cmds"])) >= 2)


def pauli_meas():  # noqa: ANN201
    return gen.meas_strategy(0.5)


SUBS = [
    Sub("pushing", lambda: st.fixed_dictionaries({"pat": gen.soups(max_active=5, max_total=8, max_steps=26, min_steps=8), "picks": gen.picks(),
                                                  "leave": st.integers(0, 255), "use_leave": st.booleans()}), pushing,
        quick=2500, thorough=40000, shards=4, rule="arbitrary runnable patterns; branch relation through the reported shifted domains; non-trivial: a pushed Pauli measurement had a domain"),
    Sub("removal", lambda: st.fixed_dictionaries({"pat": st.one_of(gen.det_patterns(max_meas=6, min_meas=2, heavy=True), gen.det_patterns(max_meas=6)), "picks": gen.picks()}), removal,
        quick=2500, thorough=40000, shards=5, rule="deterministic patterns built from graphs with gflow (Pauli and planar measurements mixed, output Cliffords); non-trivial: >=1 non-input Pauli measurement among >=2 measurements"),
    Sub("branch0", lambda: st.fixed_dictionaries({"pat": gen.soups(max_active=5, max_total=8, max_steps=24, min_steps=8), "picks": gen.picks()}), branch0,
        quick=2500, thorough=40000, shards=3, rule="arbitrary runnable patterns with possible all-0 branch; non-trivial as removal"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": big.seeded(big.soup, 30, 90), "picks": gen.picks(), "leave": st.integers(0, 2**30 - 1), "use_leave": st.booleans()}), pushing,
        quick=150, thorough=5000, shards=6, rule="patterns of 30-90 commands, sampled branches; same non-triviality"),
    Sub("large removal", lambda: st.fixed_dictionaries({"pat": big.seeded(big.det, 8, 30, pauli=0.7), "picks": gen.picks()}), removal,
        quick=150, thorough=5000, shards=6, rule="deterministic patterns with 8-30 measured nodes; same non-triviality"),
]
