"""C08: local rewrites of commands and domains preserve every branch.

Removing local Cliffords is compared through all (order-preserving) identifications of the old measurements
with measurements of the new pattern; the other rewrites keep the nodes and are compared branch by branch.
"""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from graphix import optimization
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Sign
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.optimization import StandardizedPattern
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import compare_branches


def same_desc(a, b) -> bool:  # noqa: ANN001
    def plain(x):  # noqa: ANN001, ANN202
        if isinstance(x, np.ndarray):
            return np.round(x, 9).tolist()
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(v) for v in x]
        return x

    return plain(a) == plain(b)


def cliffords(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    how = case["how"]
    if how == "function":
        q = optimization.remove_local_clifford_commands(p)
    elif how == "copy":
        q = p.remove_local_clifford_commands(copy=True)
    else:
        q = p.copy()
        r = q.remove_local_clifford_commands()
        check(r is q, "in-place variant does not return the pattern")
    check(conv.freeze(p) == before, f"{how}: source pattern changed")
    q.check_runnability()
    d2 = conv.describe(q)
    check(all(c[0] != "C" for c in d2["cmds"]), "a Clifford command is left")
    check(d2["in"] == d["in"], "inputs changed")
    check(len(d2["out"]) == len(d["out"]), "number of outputs changed")
    touched = {c[1] for c in d["cmds"] if c[0] == "C"}
    old_nodes = set(d["in"]) | {c[1] for c in d["cmds"] if c[0] == "N"}
    for a, b in zip(d["out"], d2["out"]):
        check(a == b or (a in touched and b not in old_nodes), f"output {a} became {b}")
    ms1, ms2 = ref.measured(d["cmds"]), ref.measured(d2["cmds"])
    extra = len(ms2) - len(ms1)
    check(extra >= 0, "measurements disappeared")
    # candidates for "where did the measurement of node n go"
    kinds = {n: c[2] for c in d["cmds"] if c[0] == "M" for n in [c[1]]}
    kinds2 = {n: c[2] for c in d2["cmds"] if c[0] == "M" for n in [c[1]]}
    cands = [pos for pos in itertools.combinations(range(len(ms2)), len(ms1))
             if all((ms2[i] == n if n not in touched else True) and kinds2[ms2[i]] == kinds[n] for n, i in zip(ms1, pos))]
    branches = ref.branch_list(ms2, 5, case["picks"])
    maps2 = [ref.run_branch(d2, b) * 2 ** (extra / 2) for b in branches]
    cache: dict[tuple[int, ...], np.ndarray] = {}

    def orig(key):  # noqa: ANN001, ANN202
        if key not in cache:
            cache[key] = ref.run_branch(d, dict(zip(ms1, key)))
        return cache[key]

    info.extra += len(branches)
    ok = any(all(ref.same_up_to_phase(orig(tuple(b[ms2[i]] for i in pos)), m) for b, m in zip(branches, maps2)) for pos in cands)
    check(ok, lambda: f"{how}: for no identification of the measurements do the branches agree: {d2}")
    info.label(how, f"cliff{min(len(touched), 3)}", f"extra{min(extra, 6)}")
    info.nt(extra >= 1 and any(c[0] == "C" and c[1] in set(ms1) for c in d["cmds"]) or extra >= 2)


def domains(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    u = conv.describe(optimization.remove_useless_domains(p))
    check(conv.freeze(p) == before, "remove_useless_domains changed its argument")
    check(u["out"] == d["out"], "outputs changed")
    compare_branches(d, u, case["picks"], info, "remove_useless_domains")
    check(len(u["cmds"]) == len(d["cmds"]), "number of commands changed")
    dropped = 0
    for c1, c2 in zip(d["cmds"], u["cmds"]):
        check(c1[0] == c2[0] and c1[1] == c2[1], "commands changed")
        if c1[0] == "M":
            check(set(c2[3]) <= set(c1[3]) and set(c2[4]) <= set(c1[4]), "a domain grew")
            if c1[2] == ["P", "X", 1]:
                check(not c2[3], "s-domain of an X measurement left")
            if c1[2] == ["P", "Z", 1]:
                check(not c2[4], "t-domain of a Z measurement left")
            dropped += len(c1[3]) + len(c1[4]) - len(c2[3]) - len(c2[4])
    q = optimization.single_qubit_domains(p)
    check(conv.freeze(p) == before, "single_qubit_domains changed its argument")
    q.check_runnability()
    s = conv.describe(q)
    check(s["out"] == d["out"], "outputs changed")
    for c in s["cmds"]:
        for dom in (c[3:5] if c[0] == "M" else [c[2]] if c[0] in "XZ" else []):
            check(len(dom) <= 1, f"domain with several qubits left: {c}")
    compare_branches(d, s, case["picks"], info, "single_qubit_domains")
    big = max((len(dom) for c in d["cmds"] for dom in (c[3:5] if c[0] == "M" else [c[2]] if c[0] in "XZ" else [])), default=0)
    info.label("dropped" if dropped else "kept", "split" if big > 1 else "small")
    info.nt(big > 1)


def measurements(case, info: Info) -> None:  # noqa: ANN001
    p = conv.pattern(case["pat"])
    d = conv.describe(p)
    before = conv.freeze(p)
    how = case["how"]

    def run(name, **kw):  # noqa: ANN001, ANN003, ANN202
        if how == "inplace":
            q = p.copy()
            check(getattr(q, name)(**kw) is q, f"{name} in place does not return the pattern")
        else:
            q = getattr(p, name)(copy=True, **kw)
            check(q is not p, f"{name}(copy=True) returned the pattern itself")
        check(conv.freeze(p) == before, f"{name}: source pattern changed")
        return q

    b = run("blochify") if how != "method" else p.to_bloch()
    db = conv.describe(b)
    check(all(c[2][0] == "B" for c in db["cmds"] if c[0] == "M"), "blochify left a Pauli measurement")
    compare_branches(d, db, case["picks"], info, "blochify")
    i = run("infer_pauli_measurements") if how != "method" else p.infer_pauli_measurements(copy=True)
    di = conv.describe(i)
    conv_n = 0
    for c1, c2 in zip(d["cmds"], di["cmds"]):
        if c1[0] != "M":
            check(same_desc(c1, c2), "infer_pauli_measurements changed another command")
            continue
        if c1[2][0] == "B":
            x = 2 * c1[2][2]
            if x == round(x):
                conv_n += 1
                check(c2[2][0] == "P", f"{c1[2]} not recognised as a Pauli measurement")
            elif abs(x - round(x)) > 1e-3:
                check(c2[2] == c1[2], f"{c1[2]} turned into {c2[2]}")
        else:
            check(c2[2] == c1[2], "Pauli measurement changed")
        check(c1[3:] == c2[3:], "domains changed")
    check(len(di["cmds"]) == len(d["cmds"]) and di["out"] == d["out"] and di["in"] == d["in"], "commands changed")
    compare_branches(d, di, case["picks"], info, "infer_pauli_measurements")
    # there and back: Pauli measurements come back as they were
    back = conv.describe(b.infer_pauli_measurements(copy=True))
    for c1, c2 in zip(d["cmds"], back["cmds"]):
        if c1[0] == "M" and c1[2][0] == "P":
            check(c1 == c2, f"{c1} became {c2} through angles")
    sp = StandardizedPattern.from_pattern(p) if not any(c[0] == "C" for c in d["cmds"]) else None
    if sp is not None:
        st1 = conv.describe(sp.to_pattern())
        st2 = conv.describe(sp.to_bloch().to_pattern())
        check(all(c[2][0] == "B" for c in st2["cmds"] if c[0] == "M"), "StandardizedPattern.to_bloch left a Pauli measurement")
        compare_branches(st1, st2, case["picks"], info, "StandardizedPattern.to_bloch")
    info.nt(conv_n > 0 and any(c[0] == "M" and c[2][0] == "P" for c in d["cmds"]))


def tolerance(case, info: Info) -> None:  # noqa: ANN001
    """infer_pauli_measurements honours its tolerances (math.isclose on the angle)."""
    k, eps, plane, tol = case["k"], case["eps"], case["plane"], case["tol"]
    angle = k / 2 + eps
    d = {"in": [0], "cmds": [["N", 1, "PLUS"], ["E", 0, 1], ["M", 0, ["B", plane, angle], [], []], ["X", 1, [0]]], "out": [1]}
    q = conv.describe(conv.pattern(d).infer_pauli_measurements(rel_tol=0.0, abs_tol=tol, copy=True))
    m = next(c[2] for c in q["cmds"] if c[0] == "M")
    if abs(eps) < tol * 0.4:
        check(m[0] == "P", f"{angle} within {tol} of a Pauli angle was not converted")
        v = ref.meas_vector(["B", plane, k / 2])
        check(np.allclose(ref.meas_vector(m), v, atol=1e-9), f"{plane} {angle} became {m}")
    elif abs(eps) > tol * 2.5:
        check(m[0] == "B", f"{angle} farther than {tol} from a Pauli angle became {m}")
    info.label(m[0])
    info.nt(eps != 0)


def replace_measurements(case, info: Info) -> None:  # noqa: ANN001
    """apply / map with an arbitrary function act on the measurements only."""
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    pl, da = case["plane"], case["da"]

    def f(m):  # noqa: ANN001, ANN202
        if isinstance(m, BlochMeasurement):
            return BlochMeasurement(m.angle + da, m.plane if pl is None else conv.PLANES[pl])
        assert isinstance(m, PauliMeasurement)
        return PauliMeasurement(m.axis, -m.sign)

    def g(c):  # noqa: ANN001, ANN202
        if c[0] != "M":
            return c
        m = c[2]
        m2 = ["B", pl or m[1], m[2] + da] if m[0] == "B" else ["P", m[1], -m[2]]
        return ["M", c[1], m2, c[3], c[4]]

    if case["how"] == "inplace":
        q = p.copy()
        check(q.apply(f) is q, "apply does not return the pattern")
    elif case["how"] == "copy":
        q = p.apply(f, copy=True)
    else:
        q = p.map(f)
    check(conv.freeze(p) == before, "map changed its argument")
    want = {"in": d["in"], "out": d["out"], "cmds": [g(c) for c in d["cmds"]]}
    dq = conv.describe(q)
    w = conv.describe(conv.pattern(want))
    check(same_desc(w, dq), lambda: f"map: expected {w}, got {dq}")
    info.nt(len(ref.measured(d["cmds"])) >= 2)


def single(case, info: Info) -> None:  # noqa: ANN001
    """Clifford.to_opengraph for all 24 elements."""
    c = Clifford(case["c"])
    og = c.to_opengraph()
    check(list(og.input_nodes) == [0] and len(og.output_nodes) == 1, "interface")
    check(all(isinstance(m, PauliMeasurement) and isinstance(m.axis, Axis) and isinstance(m.sign, Sign) for m in og.measurements.values()), "not Pauli")
    m = ref.opengraph_map({"nodes": sorted(og.graph.nodes), "edges": [list(e) for e in og.graph.edges], "in": list(og.input_nodes),
                           "out": list(og.output_nodes), "meas": {n: conv.meas_desc(x) for n, x in og.measurements.items()}})
    check(ref.prop_to(m, np.asarray(c.matrix)), lambda: f"open graph of {c} implements {m}")
    d = conv.describe(og.to_pattern())
    for b in ref.branch_list(ref.measured(d["cmds"]), 8, []):
        check(ref.prop_to(ref.run_branch(d, b), np.asarray(c.matrix)), f"pattern of {c} wrong on branch {b}")
    info.nt()


HOW = st.sampled_from(["function", "copy", "inplace", "method"])
cl_soup = {"max_active": 4, "max_total": 7, "max_steps": 18, "edge_safe": False, "min_steps": 4}


@st.composite
def cliff_patterns(draw):  # noqa: ANN001, ANN202
    """Soups with few Cliffords (each adds measured nodes)."""
    d = draw(gen.soups(**cl_soup))
    kept, out = 0, []
    for c in d["cmds"]:
        if c[0] == "C":
            kept += 1
            if kept > 3:
                continue
        out.append(c)
    return {**d, "cmds": out}


def case_of(**kw):  # noqa: ANN003, ANN201
    return st.fixed_dictionaries({"pat": gen.soups(max_active=4, max_total=9, max_steps=26, min_steps=8, **kw), "picks": gen.picks(), "how": HOW})


SUBS = [
    Sub("single", lambda: None, single, quick=0, shards=1, enumerate=lambda tier: ({"c": i} for i in range(24)), rule="all 24 Cliffords as open graphs and patterns"),
    Sub("cliffords", lambda: st.fixed_dictionaries({"pat": cliff_patterns(), "picks": gen.picks(), "how": HOW}), cliffords, quick=3500, thorough=60000, shards=4,
        rule="arbitrary runnable patterns with up to 3 Cliffords anywhere (also before E and M); branches up to 2^5 else sampled; non-trivial: a Clifford on a node measured later, or >=2 added measurements"),
    Sub("domains", lambda: case_of(), domains, quick=2500, thorough=50000, shards=2, rule="remove_useless_domains and single_qubit_domains; non-trivial: a domain of >=2 nodes"),
    Sub("measurements", lambda: case_of(meas=gen.meas_strategy(0.5)), measurements, quick=2500, thorough=50000, shards=2,
        rule="to_bloch/blochify/infer_pauli_measurements; non-trivial: a Bloch measurement at a Pauli angle converted and a Pauli measurement present"),
    Sub("replace_measurements", lambda: st.fixed_dictionaries({"pat": gen.soups(max_steps=16, min_steps=3), "how": HOW, "plane": st.sampled_from([None, "XY", "YZ", "XZ"]),
                                                               "da": st.sampled_from([0.0, 1.0, 0.25, -2.5])}), replace_measurements, quick=1500, thorough=20000, shards=1,
        rule="apply/map with plane and angle changes; non-trivial: >=2 measurements"),
    Sub("tolerance", lambda: st.fixed_dictionaries({"k": st.integers(-9, 9), "plane": st.sampled_from(gen.PLANES), "tol": st.sampled_from([1e-3, 1e-5, 1e-8, 0.05]),
                                                    "eps": st.sampled_from([0.0, 1e-9, -1e-9, 3e-7, -3e-7, 2e-6, 2e-5, -2e-5, 3e-4, 0.003, -0.003, 0.01, 0.2, -0.2])}), tolerance,
        quick=1200, thorough=5000, shards=1, rule="Pauli inference with absolute tolerances; non-trivial: angle not exactly Pauli"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35)), "picks": gen.picks(), "how": HOW}), domains,
        quick=150, thorough=5000, shards=4, rule="as domains, patterns of 30-110 commands"),
    Sub("large measurements", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35)), "picks": gen.picks(), "how": HOW}), measurements,
        quick=150, thorough=5000, shards=4, rule="as measurements, patterns of 30-110 commands"),
]
