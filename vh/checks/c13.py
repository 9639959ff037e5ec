"""C13: pattern simulation on the state-vector backend against a dense reference.

Runnable patterns (any planes, Paulis, preparation states, local Cliffords, adaptive domains) are run on the real
simulator along prescribed branches, from inputs given in every accepted form; the state, the probability offered at
every measurement and the recorded results are compared with an independent dense simulation.  Born-rule sampling is
tested statistically with fixed seeds and 6-sigma bounds.
"""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from graphix import Pattern
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.noise_models import DepolarisingNoiseModel
from graphix.pattern import RunnabilityError
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
from graphix.states import BasicStates
from vh import big as bigger
from vh import conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import Script, psi_of, raises, same_state, vec, vecs

FORMS = ["default", "single", "list", "tuple", "iter", "array", "complexlist", "tupleamp", "statevector", "bigstatevector", "prepared"]


def input_vector(case, n):  # noqa: ANN001, ANN201
    """Dense input state denoted by the case."""
    f = case["form"]
    if f == "default":
        v = ref.STATES["PLUS"]
        return ref.kron_all([v.reshape(-1, 1)] * n).reshape(-1)
    if f == "single":
        return ref.kron_all([ref.state_vec(case["states"][0]).reshape(-1, 1)] * n).reshape(-1)
    if f in ("list", "tuple", "iter"):
        return ref.kron_all([ref.state_vec(case["states"][i % len(case["states"])]).reshape(-1, 1) for i in range(n)]).reshape(-1)
    return vec(case["amps"][str(n)])


def input_object(case, n, v):  # noqa: ANN001, ANN201
    f = case["form"]
    if f == "single":
        return conv.state(case["states"][0])
    if f in ("list", "tuple", "iter"):
        states = [conv.state(case["states"][i % len(case["states"])]) for i in range(n)]
        return states if f == "list" else tuple(states) if f == "tuple" else iter(states)
    if f == "array":
        return v.copy()
    if f == "complexlist":
        return [complex(z) for z in v]
    if f == "tupleamp":
        return tuple(v)
    if f == "statevector":
        return Statevector(v.copy())
    if f == "bigstatevector":
        return Statevector(v.copy(), max_qubits=n + 2)
    raise ValueError(f)


def walk(d, psi, choose):  # noqa: ANN001, ANN201
    """Reference run in program order; choose(node, p0) -> outcome.  Yields (final state, [(node, p0, outcome)])."""
    r = ref.Reg.from_vec(d["in"], psi)
    out: dict[int, int] = {}
    log = []
    for c in d["cmds"]:
        if c[0] == "M":
            v = ref.flip(ref.meas_vector(c[2]), ref.parity(c[3], out), ref.parity(c[4], out))
            total = r.norm2()
            r0 = r.copy()
            r0.bra(c[1], ref.ket_of(v))
            p0 = r0.norm2() / total
            o = choose(c[1], p0)
            out[c[1]] = o
            log.append((c[1], p0, o))
        ref.step(r, c, out)
    return r.matrix(d["out"])[:, 0], log


def oracle_branches(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    n = len(d["in"])
    psi = input_vector(case, n)
    p = conv.pattern(d)
    before = conv.freeze(p)
    ms = ref.measured(d["cmds"])
    given = {int(k): v for k, v in case["given"]}
    for k, want in enumerate(ref.branch_list(ms, 2, case["picks"])):
        sel = Script(want)
        mm = DefaultMeasureMethod(given) if (case["given"] or k == 0) else DefaultMeasureMethod()
        given0 = dict(given)
        if case["form"] == "prepared":
            order = sorted(range(n), key=lambda i: (case["perm"] >> (4 * i)) % 16)
            be = StatevectorBackend.with_capacity(case["cap"], branch_selector=sel) if case["cap"] else StatevectorBackend(branch_selector=sel)
            reg = ref.Reg.from_vec(list(range(n)), psi)
            be.add_nodes([d["in"][i] for i in order], reg.matrix(order)[:, 0])
            state = p.simulate(be, input_state=None, measure_method=mm)
        elif case["api"] == 0:
            kw = {} if case["form"] == "default" else {"input_state": input_object(case, n, psi)}
            state = p.simulate(branch_selector=sel, measure_method=mm, **kw)
        elif case["api"] == 1:
            sim = PatternSimulator(p, "statevector", branch_selector=sel, measure_method=mm)
            check(sim.pattern is p and sim.measure_method is mm, "PatternSimulator does not keep its pattern and measure method")
            sim.run() if case["form"] == "default" else sim.run(input_object(case, n, psi))
            state = sim.backend.state
        else:
            be = StatevectorBackend(branch_selector=sel)
            kw = {} if case["form"] == "default" else {"input_state": input_object(case, n, psi)}
            state = p.simulate(be, measure_method=mm, **kw)
            check(list(be.node_index) == d["out"], f"backend ends with nodes {list(be.node_index)}, outputs are {d['out']}")
        taken = sel.outcomes
        final, log = walk(d, psi, lambda q, p0: taken[q])  # noqa: B023
        info.extra += 1
        check([x[0] for x in sel.log] == ms, lambda: f"measured {[x[0] for x in sel.log]} instead of {ms}")
        for (q, p0, o), (q2, e0, _) in zip(sel.log, log):
            check(abs(p0 - e0) < 1e-6, lambda: f"node {q}: probability of 0 is {e0}, simulator computed {p0} (branch {taken})")
        out = psi_of(state)
        check(state.nqubit == len(d["out"]), f"{state.nqubit} qubits at the end for {len(d['out'])} outputs")
        check(abs(np.linalg.norm(out) - 1) < 1e-6, f"final state has norm {np.linalg.norm(out)}")
        if not same_state(out, final, 1e-6):
            raise Fail(f"branch {taken}: final state\n{np.round(out, 4).tolist()}\nreference\n{np.round(final / np.linalg.norm(final), 4).tolist()}")
        exp = {**given, **taken}
        check(dict(mm.results) == exp, lambda: f"results {dict(mm.results)} instead of {exp}")
        check(given == given0, "the mapping of known results was modified")
        if any(not (1e-9 < e0 < 1 - 1e-9) for _, e0, _ in log):
            info.label("deterministic outcome met")
        if any(abs(e0 - 0.5) > 1e-3 and 1e-9 < e0 < 1 - 1e-9 for _, e0, _ in log):
            info.label("biased probability")
    check(conv.freeze(p) == before, "simulation changed the pattern")
    info.label("form " + case["form"], f"measurements {min(len(ms), 4)}")
    if any(c[0] == "M" and (c[3] or c[4]) for c in d["cmds"]):
        info.label("adaptive")
    info.nt(len(ms) >= 1 and any(c[0] == "E" for c in d["cmds"]))


@st.composite
def strat_branches(draw, big=False, long=False):  # noqa: ANN001, ANN201
    d = draw(bigger.seeded(bigger.soup, 30, 130, max_active=6, edge_safe=False, max_inputs=3)) if long else draw(gen.soups(max_active=5 if big else 4, max_total=9 if big else 7, max_steps=28 if big else 20, edge_safe=False))
    n = len(d["in"])
    sts = draw(st.lists(st.one_of(st.sampled_from(gen.STATE_NAMES), st.tuples(st.just("P"), st.sampled_from(gen.PLANES), gen.angles()).map(list)), min_size=3, max_size=3))
    return {"pat": d, "form": draw(st.sampled_from(FORMS)), "api": draw(st.integers(0, 2)), "states": sts,
            "amps": {str(n): draw(vecs(n))}, "perm": draw(st.integers(0, 2**16 - 1)), "cap": draw(st.integers(0, 3)),
            "given": draw(st.lists(st.tuples(st.one_of(st.integers(90, 94), st.integers(0, 9)), st.integers(0, 1)).map(list), max_size=2)),
            "picks": draw(gen.picks())}


# ---------------------------------------------------------------- sampling

def distribution(d, psi):  # noqa: ANN001, ANN201
    ms = ref.measured(d["cmds"])
    out = {}
    for bits in itertools.product((0, 1), repeat=len(ms)):
        b = dict(zip(ms, bits))
        r = ref.Reg.from_vec(d["in"], psi)
        out[bits] = float(np.sum(np.abs(ref.run_branch({k: v for k, v in d.items() if k != "_lazy"}, b, r)) ** 2))
    return ms, out


def oracle_born(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    n = len(d["in"])
    psi = vec(case["amps"][str(n)])
    ms, probs = distribution(d, psi)
    check(abs(sum(probs.values()) - 1) < 1e-6, "reference distribution")
    runs = case["runs"]
    p = conv.pattern(d)
    rng = np.random.default_rng(case["seed"])
    counts = dict.fromkeys(probs, 0)
    finals = {}
    for _ in range(runs):
        mm = DefaultMeasureMethod()
        kw = {"branch_selector": RandomBranchSelector()} if case["explicit"] else {}
        s = p.simulate(input_state=psi.copy(), rng=rng, measure_method=mm, **kw)
        bits = tuple(int(mm.results[q]) for q in ms)
        counts[bits] += 1
        finals.setdefault(bits, psi_of(s))
    info.extra += runs
    for bits, q in probs.items():
        c = counts[bits]
        tol = 6 * math.sqrt(max(runs * q * (1 - q), 0)) + (3 if 1e-9 < q < 1 - 1e-9 else 0.5)
        check(abs(c - runs * q) <= tol, lambda: f"outcomes {bits} of nodes {ms}: probability {q:.4f}, drawn {c} times in {runs} runs ({counts})")
    for bits, s in finals.items():
        r = ref.Reg.from_vec(d["in"], psi)
        final = ref.run_branch({k: v for k, v in d.items() if k != "_lazy"}, dict(zip(ms, bits)), r)[:, 0]
        check(same_state(s, final, 1e-6), lambda: f"random run with outcomes {bits} ends in another state")
    info.nt(any(abs(q - 2 ** -len(ms)) > 0.05 for q in probs.values()))
    info.label(f"measurements {len(ms)}")


@st.composite
def strat_born(draw):  # noqa: ANN001, ANN201
    d = draw(gen.soups(max_active=3, max_total=5, max_steps=12, min_steps=5).filter(lambda d: 1 <= len(ref.measured(d["cmds"])) <= 3))
    n = len(d["in"])
    return {"pat": d, "amps": {str(n): draw(vecs(n))}, "seed": draw(st.integers(0, 2**31)), "runs": 300, "explicit": draw(st.booleans())}


# ---------------------------------------------------------------- selectors and rejected requests

def oracle_selectors(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    n = len(d["in"])
    psi = vec(case["amps"][str(n)])
    p = conv.pattern(d)
    ms = ref.measured(d["cmds"])
    # outcomes of non-zero probability, prescribed entirely
    taken: dict[int, int] = {}

    def choose(q, p0):  # noqa: ANN001, ANN202
        w = (case["bits"] >> (len(taken))) & 1
        if (p0 if w == 0 else 1 - p0) < 1e-6:
            w = 1 - w
        taken[q] = w
        return w

    final, _ = walk(d, psi, choose)
    mm = DefaultMeasureMethod()
    s = p.simulate(input_state=psi.copy(), branch_selector=FixedBranchSelector(dict(taken)), measure_method=mm)
    check(dict(mm.results) == taken, f"prescribed {taken}, got {dict(mm.results)}")
    check(same_state(psi_of(s), final, 1e-6), f"prescribed branch {taken} ends in another state")
    if not ms:
        return
    # part of the nodes prescribed, the rest through the default selector
    part = {q: taken[q] for i, q in enumerate(ms) if (case["mask"] >> i) & 1}
    script = Script(lambda q: taken[q])
    mm = DefaultMeasureMethod()
    s = p.simulate(input_state=psi.copy(), branch_selector=FixedBranchSelector(part, default=script), measure_method=mm)
    check(dict(mm.results) == taken and same_state(psi_of(s), final, 1e-6), "prescribed part of the branch is not respected")
    check([x[0] for x in script.log] == [q for q in ms if q not in part], "default selector consulted for other nodes than those left open")
    if len(part) < len(ms):
        e = raises(ValueError, lambda: p.simulate(input_state=psi.copy(), branch_selector=FixedBranchSelector(part)))
        check(e is not None, f"nodes {[q for q in ms if q not in part]} have no prescribed outcome, yet the simulation ran")
        info.label("missing outcome rejected")
    # constant branch, when possible
    c = case["bits"] & 1
    ok = True

    def const(q, p0):  # noqa: ANN001, ANN202
        nonlocal ok
        ok = ok and (p0 if c == 0 else 1 - p0) > 1e-6
        return c if ok else (0 if p0 > 0.5 else 1)

    final, _ = walk(d, psi, const)
    if ok:
        mm = DefaultMeasureMethod()
        s = p.simulate(input_state=psi.copy(), branch_selector=ConstBranchSelector(c), measure_method=mm)
        check(dict(mm.results) == dict.fromkeys(ms, c) and same_state(psi_of(s), final, 1e-6), f"constant branch {c}")
        info.label("constant branch")
    info.nt(len(ms) >= 2)


@st.composite
def strat_selectors(draw):  # noqa: ANN001, ANN201
    d = draw(gen.soups(max_active=4, max_total=6, max_steps=16, min_steps=4))
    n = len(d["in"])
    return {"pat": d, "amps": {str(n): draw(vecs(n))}, "bits": draw(st.integers(0, 255)), "mask": draw(st.integers(0, 255))}


def oracle_uniform(case, info: Info) -> None:  # noqa: ANN001
    """pr_calc=False: outcomes are fair coins whatever the state."""
    sel = RandomBranchSelector(pr_calc=False)
    rng = np.random.default_rng(case["seed"])

    def never() -> float:
        raise Fail("probability computed although pr_calc is False")

    k = sum(int(sel.measure(q, never, rng)) for q in range(400))
    check(abs(k - 200) <= 6 * 10 + 1, f"{k} ones in 400 uniform draws")
    sel = RandomBranchSelector()
    p0 = case["p0"]
    k = sum(int(sel.measure(q, lambda: p0, rng)) for q in range(400))
    tol = 6 * math.sqrt(400 * p0 * (1 - p0)) + (3 if 0 < p0 < 1 else 0.5)
    check(abs(k - 400 * (1 - p0)) <= tol, f"{k} ones in 400 draws with probability of 0 {p0}")
    info.nt()


def strat_uniform():  # noqa: ANN201
    return st.fixed_dictionaries({"seed": st.integers(0, 2**31), "p0": st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.9, 0.02, 0.7, 0.3])})


def oracle_reject(case, info: Info) -> None:  # noqa: ANN001
    d = case["pat"]
    p = conv.pattern(d)
    n = len(d["in"])
    kind = case["kind"]
    sel = Script(lambda q: 0)
    be = StatevectorBackend(branch_selector=sel)
    if kind == "occupied":
        be.add_nodes([77])
        fn = lambda: p.simulate(be)  # noqa: E731
    elif kind == "missing":
        extra = case["k"] if case["k"] != n else n + 1
        be.add_nodes([*d["in"], 81, 82, 83, 84][:extra])
        fn = lambda: p.simulate(be, input_state=None)  # noqa: E731
    elif kind == "selector":
        fn = lambda: p.simulate(be, branch_selector=sel)  # noqa: E731
    elif kind == "graph_prep":
        fn = (lambda: p.simulate(be, graph_prep="auto")) if case["k"] % 2 else (lambda: p.simulate("statevector", graph_prep="auto"))
    elif kind == "symbolic":
        fn = (lambda: p.simulate(be, symbolic=True)) if case["k"] % 2 else (lambda: p.simulate("statevector", symbolic=True))
    elif kind == "noise":
        fn = lambda: p.simulate("statevector", noise_model=DepolarisingNoiseModel())  # noqa: E731
    elif kind == "backend":
        fn = lambda: p.simulate("statevectors")  # type: ignore[arg-type]  # noqa: E731
    elif kind == "length":
        fn = lambda: p.simulate(branch_selector=sel, input_state=[BasicStates.ZERO] * (n + 1 + case["k"] % 2))  # noqa: E731
    elif kind == "amplitudes":
        v = np.zeros(2 ** (n + 1))
        v[0] = 1
        fn = lambda: p.simulate(branch_selector=sel, input_state=v)  # noqa: E731
    else:
        v = np.zeros(2**n)
        v[0] = 1.2
        fn = lambda: p.simulate(branch_selector=sel, input_state=v)  # noqa: E731
    e = raises(ValueError, fn)
    check(e is not None, f"{kind}: invalid request accepted")
    info.label(kind)
    info.nt()


@st.composite
def strat_reject(draw):  # noqa: ANN001, ANN201
    d = draw(gen.soups(max_active=3, max_total=4, max_steps=6))
    kinds = ["occupied", "missing", "selector", "graph_prep", "symbolic", "noise", "backend", "length", "amplitudes", "norm"]
    return {"pat": d, "kind": draw(st.sampled_from(kinds)), "k": draw(st.integers(0, 4))}


def oracle_unrunnable(case, info: Info) -> None:  # noqa: ANN001
    """A pattern that is not runnable raises RunnabilityError before any measurement is taken."""
    from vh.checks.c11 import problems

    d = case["pat"]
    p = Pattern(input_nodes=d["in"], cmds=[conv.cmd(c) for c in d["cmds"]])
    if problems(d) is None:
        return
    sel = Script(lambda q: 0)
    e = raises(RunnabilityError, lambda: p.simulate(branch_selector=sel))
    check(e is not None, "non-runnable pattern simulated")
    check(not sel.log, "measurements were taken before the runnability error")
    info.nt()


def strat_unrunnable():  # noqa: ANN201
    from vh.checks import c11

    @st.composite
    def s(draw):  # noqa: ANN001, ANN202
        d = draw(gen.soups(max_active=3, max_total=6, max_steps=12, min_steps=3))
        kinds = ["delete", "dup", "move", "node", "domain", "self"]
        muts = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=2))
        return {"pat": c11.mutate(d, muts)}

    return s()


SUBS = [
    Sub("branches", lambda: strat_branches(), oracle_branches, quick=4000, thorough=80000, shards=4, rule="at least one measurement and one entanglement"),
    Sub("born", strat_born, oracle_born, quick=200, thorough=4000, shards=4, rule="distribution is not uniform"),
    Sub("selectors", strat_selectors, oracle_selectors, quick=1500, thorough=30000, shards=2, rule="at least two measurements"),
    Sub("uniform", strat_uniform, oracle_uniform, quick=40, thorough=400, shards=1, rule="every case (400 draws each)"),
    Sub("reject", strat_reject, oracle_reject, quick=150, thorough=1500, shards=1, rule="every case is an invalid request"),
    Sub("unrunnable", strat_unrunnable, oracle_unrunnable, quick=150, thorough=2000, shards=1, rule="pattern not runnable by the reference state machine"),
    Sub("large", lambda: strat_branches(big=True), oracle_branches, quick=1200, thorough=30000, shards=2, rule="as branches, on larger patterns"),
    Sub("long", lambda: strat_branches(long=True), oracle_branches, quick=160, thorough=5000, shards=4, rule="as branches, patterns of 30-130 commands"),
]
