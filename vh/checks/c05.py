"""C05: signal shifting only relabels outcomes, as reported."""
from __future__ import annotations

from hypothesis import strategies as st

from graphix.pattern import shift_outcomes
from graphix.simulator import DefaultMeasureMethod
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.ref import PLANE_AXES
from vh.util import Script, compare_branches, psi_of, same_state

def plane_of(m) -> str:  # noqa: ANN001
    return m[1] if m[0] == "B" else {"X": "XY", "Y": "XY", "Z": "XZ"}[m[1]]


def shift(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    method = case["method"]
    src = conv.pattern(d)
    if case["std"]:
        src.standardize()
        d = conv.describe(src)
    p = src.copy()
    before = conv.freeze(src)
    sig = p.shift_signals(method=method)
    check(conv.freeze(src) == before, f"shift_signals({method}) on a copy changed the original")
    d2 = conv.describe(p)
    check(d2["out"] == d["out"] and d2["in"] == d["in"], "inputs or outputs changed")
    skel = [[c[:2] if c[0] in "XZC" else c[:3] for c in x["cmds"]] for x in (conv.describe(src), d2)]
    check(skel[0] == skel[1], "commands or their order changed")
    p.check_runnability()
    for c in d2["cmds"]:
        if c[0] == "M":
            pl = plane_of(c[2])
            gone = c[4] if pl == "XY" else c[3]
            check(not gone, f"shifted domain {gone} is still on {c}")
    ms = ref.measured(d["cmds"])
    check(set(sig) <= set(ms), f"signals for nodes that are not measured: {sig}")
    nested = any(set(v) & {k for k, w in sig.items() if w} for v in sig.values())
    pos = {n: i for i, n in enumerate(ms)}
    check(all(pos[x] < pos[k] for k, v in sig.items() for x in v), f"signal of a node refers to a later outcome: {sig}")
    # the exact direction: direct: shifted -> original;  mc: original -> shifted
    if method == "direct":
        compare_branches(d, d2, case["picks"], info, "shift_signals(direct)", translate=lambda b: shift_outcomes(b, sig))
    else:
        compare_branches(d2, d, case["picks"], info, "shift_signals(mc)", translate=lambda b: shift_outcomes(b, sig))
    # the opposite direction is promised as well
    try:
        if method == "direct":
            compare_branches(d2, d, case["picks"], info, "shift_signals(direct), original->shifted", translate=lambda b: shift_outcomes(b, sig))
        else:
            compare_branches(d, d2, case["picks"], info, "shift_signals(mc), shifted->original", translate=lambda b: shift_outcomes(b, sig))
    except Fail as e:
        if not nested:
            raise
        info.finding("shift_outcomes-one-way", e)
    dom = sum(1 for v in sig.values() if v)
    info.label(method, f"signals{min(dom, 4)}", "nested" if nested else "flat")
    info.nt(dom >= 1 and len(ms) >= 2)


def simulate(case, info: Info) -> None:  # noqa: ANN001
    """Simulator-level: run the shifted pattern, translate its outcomes, run the original on them: same state."""
    d = case["pat"]
    p = conv.pattern(d)
    q = p.copy()
    sig = q.shift_signals(method="direct")
    ms = ref.measured(d["cmds"])
    bits = case["picks"][0]
    sel = Script({n: (bits >> i) & 1 for i, n in enumerate(ms)})
    mm = DefaultMeasureMethod()
    s1 = psi_of(q.simulate(branch_selector=sel, measure_method=mm))
    got = {n: int(mm.results[n]) for n in ms}
    check(got == sel.outcomes, f"recorded results {got} are not the selected outcomes {sel.outcomes}")
    tr = shift_outcomes(mm.results, sig)
    sel2 = Script({n: int(tr[n]) for n in ms})
    s2 = psi_of(p.simulate(branch_selector=sel2))
    check(sel2.outcomes == {n: int(tr[n]) for n in ms}, f"translated outcomes {tr} are impossible for the original pattern")
    check(all(abs(a[1] - b[1]) < 1e-6 if got[a[0]] == int(tr[a[0]]) else abs(a[1] - (1 - b[1])) < 1e-6 for a, b in zip(sel.log, sel2.log, strict=True)),
          "probabilities differ")
    check(same_state(s1, s2), "state differs")
    info.nt(any(sig.values()))


def outcomes(case, info: Info) -> None:  # noqa: ANN001
    """shift_outcomes is the parity update described."""
    out = {i: b for i, b in enumerate(case["bits"])}
    n = len(out)
    sig = {k % n: {x % n for x in v} for k, v in case["sig"]}
    res = shift_outcomes(out, sig)
    want = {k: v ^ (sum(out[x] for x in sig.get(k, ())) & 1) for k, v in out.items()}
    check({k: int(v) for k, v in res.items()} == want, f"{res} != {want}")
    check(out == {i: b for i, b in enumerate(case["bits"])}, "argument modified")
    info.nt(bool(sig) and n >= 2)


def pats():  # noqa: ANN201
    # many measurements with dense domains
    return gen.soups(max_active=5, max_total=9, max_steps=26, min_steps=8, max_inputs=3)


SUBS = [
    Sub("shift", lambda: st.fixed_dictionaries({"pat": pats(), "picks": gen.picks(), "method": st.sampled_from(["direct", "mc"]), "std": st.booleans()}), shift,
        quick=5000, thorough=80000, shards=5, rule="arbitrary runnable patterns (standardized or not), all planes and Pauli measurements; every branch up to 2^5 in both translation directions; non-trivial: >=1 signal shifted, >=2 measurements"),
    Sub("simulate", lambda: st.fixed_dictionaries({"pat": gen.soups(max_active=4, max_total=8, max_steps=20, min_steps=6), "picks": gen.picks()}), simulate,
        quick=2000, thorough=30000, shards=2, rule="the same through the statevector simulator; non-trivial: >=1 signal"),
    Sub("outcomes", lambda: st.fixed_dictionaries({"bits": st.lists(st.integers(0, 1), min_size=1, max_size=6),
                                                   "sig": st.lists(st.tuples(st.integers(0, 9), st.lists(st.integers(0, 9), max_size=4)).map(list), max_size=5)}), outcomes,
        quick=1000, thorough=5000, shards=1, rule="random outcomes and signal dictionaries"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35)), "picks": gen.picks(), "method": st.sampled_from(["direct", "mc"]), "std": st.booleans()}), shift,
        quick=250, thorough=8000, shards=6, rule="patterns of 30-110 commands with domains of up to nine nodes, sampled branches; same non-triviality"),
]
