"""C04: standardization preserves every branch and yields standard form."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from graphix import optimization
from graphix.optimization import StandardizedPattern
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import compare_branches, raises

ORDER = {"N": 0, "E": 1, "M": 2, "X": 3, "Z": 3, "C": 4}


def is_sorted_standard(kinds: list[str]) -> bool:
    ranks = [ORDER[k] for k in kinds]
    return ranks == sorted(ranks)


def hazard(d) -> bool:  # noqa: ANN001
    """Some E acts on a node that carries a local Clifford that is neither diagonal nor antidiagonal."""
    cur: dict[int, np.ndarray] = {}
    for c in d["cmds"]:
        if c[0] == "C":
            cur[c[1]] = ref.word(c[2]) @ cur.get(c[1], ref.I2)
        elif c[0] == "E":
            for q in (c[1], c[2]):
                m = cur.get(q, ref.I2)
                if abs(m[0, 0]) > 1e-6 and abs(m[0, 1]) > 1e-6:
                    return True
    return False


def interleaved(d) -> bool:  # noqa: ANN001
    return not is_sorted_standard([c[0] for c in d["cmds"]])


def standard(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    how = case["how"]
    try:
        if how == "method":
            q = p.copy()
            q.standardize()
        elif how == "function":
            q = optimization.standardize(p)
        elif how == "class":
            q = StandardizedPattern.from_pattern(p).to_pattern()
        else:
            q = StandardizedPattern.from_pattern(p).to_space_optimal_pattern()
    except NotImplementedError:
        check(hazard(d), "standardization refused although every Clifford commutes with the entanglements")
        check(conv.freeze(p) == before, "failed standardization changed the pattern")
        info.label("refused")
        return
    check(conv.freeze(p) == before, f"{how}: source pattern changed")
    d2 = conv.describe(q)
    check(d2["out"] == d["out"], f"outputs changed from {d['out']} to {d2['out']}")
    q.check_runnability()
    if how != "optimal":
        kinds = [c[0] for c in d2["cmds"]]
        check(is_sorted_standard(kinds), f"not in standard form: {kinds}")
        check(q.is_standard(), "is_standard() is False after standardization")
        check(q.is_standard(strict=True), "is_standard(strict=True) is False after standardization")
    ns = [c[1] for c in d2["cmds"] if c[0] == "N"]
    check(ns == [c[1] for c in d["cmds"] if c[0] == "N"] or sorted(ns) == sorted(c[1] for c in d["cmds"] if c[0] == "N"), "preparations changed")
    es = [frozenset(c[1:3]) for c in d2["cmds"] if c[0] == "E"]
    check(len(es) == len(set(es)), "an edge is created twice")
    for k in "XZC":
        xs = [c[1] for c in d2["cmds"] if c[0] == k]
        check(len(xs) == len(set(xs)), f"several {k} on one node")
        check(set(xs) <= set(d["out"]), f"{k} on a node that is not an output")
    check(q.n_node == p.n_node and q.nodes() == p.nodes(), "node count changed")
    compare_branches(d, d2, case["picks"], info, f"standardize ({how})")
    info.label(how, f"meas{min(len(ref.measured(d['cmds'])), 5)}", "interleaved" if interleaved(d) else "was-standard")
    info.nt(interleaved(d) and len(ref.measured(d["cmds"])) >= 1)


def again(case, info: Info) -> None:  # noqa: ANN001
    """Standardization in place: a second application changes nothing; is_standard agrees with the definition."""
    d = case["pat"]
    p = conv.pattern(d)
    kinds = [c[0] for c in d["cmds"]]
    # reference definition of the lax form
    lax = [{"N": 0, "E": 1, "M": 2}.get(k, 3) for k in kinds]
    check(p.is_standard() == (lax == sorted(lax)), f"is_standard() wrong on {kinds}")
    check(p.is_standard(strict=True) == is_sorted_standard(kinds), f"is_standard(strict=True) wrong on {kinds}")
    if hazard(d):
        info.label("hazard")
        return
    p.standardize()
    d1 = conv.describe(p)
    p.standardize()
    d2 = conv.describe(p)

    def canon(x):  # noqa: ANN001, ANN202
        return (x["in"], x["out"], sorted(repr([c[0], sorted(c[1:3])] if c[0] == "E" else [c[0], c[1], np.round(c[2], 9).tolist()] if c[0] == "C" else c)
                                          for c in x["cmds"] if not (c[0] in "XZ" and not c[2])))

    check(canon(d1) == canon(d2), lambda: f"standardizing twice differs:\n{d1}\n{d2}")
    info.nt(interleaved(d))


def std_methods(case, info: Info) -> None:  # noqa: ANN001
    """Queries on the standardized pattern: graph, map, to_bloch, opengraph."""
    d = case["pat"]
    p = conv.pattern(d)
    sp = StandardizedPattern.from_pattern(p)
    g = sp.graph()
    mult: dict[frozenset, int] = {}
    for c in d["cmds"]:
        if c[0] == "E":
            k = frozenset(c[1:3])
            mult[k] = mult.get(k, 0) + 1
    check({frozenset(e) for e in g.edges} == {k for k, v in mult.items() if v % 2}, "graph() edges are not the entanglements taken modulo two")
    check(set(g.nodes) == set(d["in"]) | {c[1] for c in d["cmds"] if c[0] == "N"}, "graph() nodes")
    b = sp.to_bloch()
    db = conv.describe(b.to_pattern())
    check(all(c[2][0] == "B" for c in db["cmds"] if c[0] == "M"), "to_bloch left a Pauli measurement")
    compare_branches(d, db, case["picks"], info, "StandardizedPattern.to_bloch")
    nonplus = [c for c in d["cmds"] if c[0] == "N" and abs(abs(np.vdot(ref.state_vec(c[2]), ref.STATES["PLUS"])) - 1) > 1e-9]
    err = raises(ValueError, sp.to_opengraph)
    check((err is not None) == bool(nonplus), f"to_opengraph {'raised' if err else 'accepted'} with non-|+> preparations {nonplus}")
    if err is None:
        og = sp.to_opengraph()
        check(list(og.input_nodes) == d["in"] and list(og.output_nodes) == d["out"], "open graph interface")
        check(set(og.measurements) == set(ref.measured(d["cmds"])), "open graph measurements")
        # branch 0 of the pattern is the open graph's map followed by the output Cliffords
        m0 = ref.branch(d, dict.fromkeys(ref.measured(d["cmds"]), 0))
        dog = {"nodes": list(og.graph.nodes), "edges": [list(e) for e in og.graph.edges], "in": d["in"], "out": d["out"],
               "meas": {n: conv.meas_desc(m) for n, m in og.measurements.items()}}
        m1 = ref.opengraph_map(dog) * 2 ** (max(0, len(dog["meas"]) - 8) / 2)
        for i, o in enumerate(d["out"]):
            if o in og.output_cliffords:
                m1 = ref.embed(np.asarray(og.output_cliffords[o].matrix), [i], len(d["out"])) @ m1
        check(ref.same_up_to_phase(m0, m1), "open graph does not describe branch 0 of the pattern")
        info.label("opengraph")
    info.nt(interleaved(d))


def soup_case(**kw):  # noqa: ANN003, ANN201
    return st.fixed_dictionaries({"pat": gen.soups(min_steps=4, **kw), "picks": gen.picks(), "how": st.sampled_from(["method", "function", "class", "optimal"])})


SUBS = [
    Sub("standard", lambda: soup_case(max_steps=24), standard, quick=4000, thorough=80000, shards=4,
        rule="arbitrary runnable patterns (random order of N/E/M/X/Z/C, random domains, non-|+> preparations); non-trivial: commands interleaved and >=1 measurement; every branch up to 2^5, else sampled"),
    Sub("unrestricted", lambda: soup_case(max_steps=16, edge_safe=False), standard, quick=2000, thorough=30000, shards=2,
        rule="as standard, with arbitrary Cliffords before E (refusal allowed only then)"),
    Sub("again", lambda: st.fixed_dictionaries({"pat": gen.soups(min_steps=0, max_steps=14)}), again, quick=2500, thorough=30000, shards=1,
        rule="is_standard against its definition; idempotence; non-trivial: source not standard"),
    Sub("std_methods", lambda: st.fixed_dictionaries({"pat": gen.soups(min_steps=3, max_steps=20), "picks": gen.picks()}), std_methods,
        quick=2000, thorough=30000, shards=1, rule="graph, to_bloch, to_opengraph of the standardized pattern; non-trivial: source not standard"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35)), "picks": gen.picks(), "how": st.sampled_from(["method", "function", "class", "optimal"])}), standard,
        quick=250, thorough=8000, shards=6, rule="patterns of 30-110 commands with domains of up to nine nodes, sampled branches; same non-triviality"),
]
