"""C07: space minimisation and parallelisation preserve meaning and never cost space."""
from __future__ import annotations

import itertools

from hypothesis import strategies as st

from graphix.optimization import StandardizedPattern
from graphix.space_minimization import DEFAULT_HEURISTICS, SpaceMinimizationHeuristicResult, SpaceMinimizationHeuristics
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import compare_branches

H = {"causal_flow": SpaceMinimizationHeuristics.causal_flow, "greedy_degree": SpaceMinimizationHeuristics.greedy_degree,
     "order_unchanged": SpaceMinimizationHeuristics.order_unchanged}


def peak(d) -> int:  # noqa: ANN001
    """Maximum number of simultaneously active qubits when executing the commands as written."""
    cur = best = len(d["in"])
    for c in d["cmds"]:
        if c[0] == "N":
            cur += 1
            best = max(best, cur)
        elif c[0] == "M":
            cur -= 1
    return best


def structure(d):  # noqa: ANN001, ANN202
    """Graph (edges modulo two) and measurement order."""
    nodes = [*d["in"], *(c[1] for c in d["cmds"] if c[0] == "N")]
    adj: dict[int, set[int]] = {n: set() for n in nodes}
    for c in d["cmds"]:
        if c[0] == "E":
            adj[c[1]] ^= {c[2]}
            adj[c[2]] ^= {c[1]}
    return adj, ref.measured(d["cmds"])


def best_for_order(d, order) -> int:  # noqa: ANN001
    """Least possible peak when the measurements happen in the given order."""
    adj, _ = structure(d)
    live = set(d["in"])
    seen = set(live)
    best = len(live)
    for m in order:
        need = ({m} | adj[m]) - seen
        seen |= need
        live |= need
        best = max(best, len(live))
        live.discard(m)
    live |= set(d["out"]) - seen
    return max(best, len(live))


def deps_of(d):  # noqa: ANN001, ANN202
    """Measurement dependencies of a pattern in standard form."""
    return {c[1]: set(c[3]) | set(c[4]) for c in d["cmds"] if c[0] == "M"}


def minimise(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    before = conv.freeze(p)
    names = case["heur"]
    hs = None if names is None else [H[x] for x in names]
    q = p.minimize_space(hs, copy=True)
    check(conv.freeze(p) == before, "minimize_space(copy=True) changed its argument")
    q.check_runnability()
    dq = conv.describe(q)
    check(dq["out"] == d["out"], "outputs changed")
    check(sorted(c[1] for c in dq["cmds"] if c[0] == "N") == sorted(c[1] for c in d["cmds"] if c[0] == "N"), "prepared nodes changed")
    compare_branches(d, dq, case["picks"], info, f"minimize_space({names})")
    old, new = peak(d), peak(dq)
    check(p.max_space() == old and q.max_space() == new, f"max_space() is {p.max_space()}, {q.max_space()}, executed {old}, {new}")
    mo = ref.measured(dq["cmds"])
    check(new == best_for_order(d, mo), f"space {new} is not optimal ({best_for_order(d, mo)}) for measurement order {mo}")
    # only a list with neither the original order nor the (optimal) causal-flow order may cost space
    if names is None or not names or "order_unchanged" in names:
        check(new <= old, f"space grew from {old} to {new}")
    if names is not None and not [x for x in names if x != "order_unchanged"]:
        check(mo == ref.measured(d["cmds"]), "measurement order changed")
    r = p.copy()
    check(r.minimize_space(hs) is r, "in-place variant must return its pattern")
    check(conv.freeze(r) == conv.freeze(q), "in-place and copying variants differ")
    info.label("default" if names is None else "+".join(names) or "none", "gain" if new < old else "same" if new == old else "loss",
               "reordered" if mo != ref.measured(d["cmds"]) else "same-order")
    info.nt(len(mo) >= 2 and new < len(set(c[1] for c in d["cmds"] if c[0] == "N")) + len(d["in"]))


def heuristics(case, info: Info) -> None:  # noqa: ANN001
    """Each heuristic's order is feasible; the figure given for it is the one of the resulting pattern; the best one is kept."""
    d = case["pat"]
    p = conv.pattern(d)
    sp = StandardizedPattern.from_pattern(p)
    ds = conv.describe(sp.to_pattern())
    deps = deps_of(ds)
    spaces = []
    known = None
    for name, f in H.items():
        r = f(sp)
        if r is None:
            check(name == "causal_flow", f"{name} gave no order")
            continue
        check(sorted(r.new_order) == sorted(deps), f"{name}: {r.new_order} is not an order of the measured nodes {sorted(deps)}")
        pos = {n: i for i, n in enumerate(r.new_order)}
        check(all(pos[x] < pos[n] for n, dom in deps.items() for x in dom), f"{name}: order {r.new_order} violates dependencies {deps}")
        m = sp.minimize_space([f])
        q = m.to_space_optimal_pattern()
        q.check_runnability()
        check(ref.measured(conv.describe(q)["cmds"]) == list(r.new_order), f"{name}: pattern does not follow the order")
        check(m.max_space() == q.max_space() == peak(conv.describe(q)), f"{name}: reported {m.max_space()}, resulting pattern {peak(conv.describe(q))}")
        spaces.append(m.max_space())
        if r.known_optimal:
            known = m.max_space()
            check(known <= best_for_order(d, ref.measured(d["cmds"])), f"{name}: declared optimal order needs {known}, original order {best_for_order(d, ref.measured(d['cmds']))}")
    got = sp.minimize_space().max_space()
    check(got == (known if known is not None else min(spaces)), f"default result has space {got}, the heuristics gave {spaces}")
    # user-supplied heuristic
    order = [m.node for m in sp.m_list]
    best = sp.minimize_space([lambda _: None])
    check([m.node for m in best.m_list] == order, "no applicable heuristic must leave the order")
    if known is not None and len(order) <= 6:
        # declared optimal: compare with every feasible order
        opt = min(best_for_order(d, o) for o in itertools.permutations(order) if all(all(x in o[:i] for x in deps[n]) for i, n in enumerate(o)))
        info.label("exhaustive")
        check(known == opt, f"causal_flow order declared optimal needs {known} qubits, the optimum is {opt}")
    custom = SpaceMinimizationHeuristicResult(tuple(order), True)
    check([m.node for m in sp.minimize_space([lambda _: custom, *DEFAULT_HEURISTICS]).m_list] == order, "known_optimal must stop the search")
    info.label("causal" if known is not None else "no-causal")
    info.nt(len(order) >= 2)


def parallelise(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    q = p.copy()
    before = conv.freeze(p)
    q.parallelize_pattern()
    check(conv.freeze(p) == before, "parallelize_pattern on a copy changed the original")
    q.check_runnability()
    dq = conv.describe(q)
    check(dq["out"] == d["out"], "outputs changed")
    check(sorted(c[1] for c in dq["cmds"] if c[0] == "N") == sorted(c[1] for c in d["cmds"] if c[0] == "N"), "prepared nodes changed")
    compare_branches(d, dq, case["picks"], info, "parallelize_pattern")
    deps = deps_of(conv.describe(StandardizedPattern.from_pattern(p).to_pattern()))
    level: dict[int, int] = {}
    for c in conv.describe(StandardizedPattern.from_pattern(p).to_pattern())["cmds"]:
        if c[0] == "M":
            level[c[1]] = 1 + max((level[x] for x in deps[c[1]]), default=0)
    ls = [level[n] for n in ref.measured(dq["cmds"])]
    check(ls == sorted(ls), f"measurements are not gathered by dependency depth: {ls}")
    info.label(f"depth{min(max(ls, default=0), 5)}", "outputs" if d["out"] else "no-outputs")
    info.nt(len(ls) >= 3 and max(ls, default=0) >= 2)


def pats():  # noqa: ANN201
    return st.one_of(gen.soups(max_active=5, max_total=9, max_steps=28, min_steps=8), gen.det_patterns(max_meas=6, min_meas=2),
                     gen.soups(max_active=5, max_total=9, max_steps=28, min_steps=8, outputs=False),
                     gen.det_patterns(max_meas=6, min_meas=2, planes=["XY"], paulis=False))


heur = st.sampled_from([None, None, [], ["causal_flow"], ["greedy_degree"], ["order_unchanged"], ["greedy_degree", "order_unchanged"], ["order_unchanged", "greedy_degree"],
                        ["causal_flow", "order_unchanged"]])


@st.composite
def causal(draw):  # noqa: ANN001, ANN202
    """Patterns with a causal flow: wires of J steps with CZ between wires, some wires starting from N."""
    w = draw(st.integers(1, 4))
    fresh = iter(draw(gen.labels(14)))
    ins, cmds, wire = [], [], []
    for _ in range(w):
        n = next(fresh)
        if draw(st.booleans()):
            ins.append(n)
        else:
            cmds.append(["N", n, "PLUS"])
        wire.append(n)
    steps = draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3), st.integers(0, 3), gen.GENERIC_ANGLES), min_size=2, max_size=9))
    n_m = 0
    for k, a, b, th in steps:
        i = a % w
        if k >= 4 and n_m < 6:
            n = next(fresh)
            cmds += [["N", n, "PLUS"], ["E", wire[i], n], ["M", wire[i], ["B", "XY", th], [], []], ["X", n, [wire[i]]]]
            wire[i] = n
            n_m += 1
        elif w > 1:
            j = (i + 1 + b % (w - 1)) % w
            cmds.append(["E", wire[i], wire[j]])
    return {"in": ins, "cmds": cmds, "out": wire}


SUBS = [
    Sub("minimise", lambda: st.fixed_dictionaries({"pat": st.one_of(pats(), causal()), "picks": gen.picks(), "heur": heur}), minimise, quick=4000, thorough=70000, shards=4,
        rule="arbitrary and deterministic patterns x lists of heuristics; every branch up to 2^5; non-trivial: >=2 measurements and qubits reused"),
    Sub("heuristics", lambda: st.fixed_dictionaries({"pat": st.one_of(pats(), causal(), causal())}), heuristics, quick=3000, thorough=50000, shards=2,
        rule="each heuristic's order, figure and optimality claim (against all feasible orders when <=6 measurements); non-trivial: >=2 measurements"),
    Sub("parallelise", lambda: st.fixed_dictionaries({"pat": pats(), "picks": gen.picks()}), parallelise, quick=3000, thorough=50000, shards=2,
        rule="arbitrary and deterministic patterns, with and without outputs; non-trivial: >=3 measurements in >=2 dependency layers"),
    Sub("large", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35), big.seeded(big.det, 10, 35, planes=["XY"])), "picks": gen.picks(), "heur": heur}), minimise,
        quick=150, thorough=5000, shards=5, rule="patterns of 30-110 commands, sampled branches; same non-triviality"),
    Sub("large orders", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35), big.seeded(big.det, 10, 35, planes=["XY"]))}), heuristics,
        quick=200, thorough=6000, shards=3, rule="as heuristics"),
    Sub("large parallel", lambda: st.fixed_dictionaries({"pat": st.one_of(big.seeded(big.soup, 30, 110), big.seeded(big.det, 10, 35)), "picks": gen.picks()}), parallelise,
        quick=150, thorough=5000, shards=4, rule="as parallelise"),
]
