"""C33: every random generator called over its whole range of parameters and seeds, its results validated independently.

Unitarity, Hermiticity, trace, positivity, numerical ranks, trace preservation, normalisation and the structure of
circuits are recomputed with numpy; equal seeds must give equal objects, and moments of the distributions named in
the documentation are compared with their exact values with margins beyond eight standard deviations.
"""
from __future__ import annotations

import math
import warnings
from collections import Counter
from collections.abc import Iterator
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix import random_objects as ro
from graphix.channels import KrausChannel
from graphix.parameter import Expression, Placeholder
from graphix.transpiler import Circuit
from vh import conv, ref
from vh.core import Info, Sub, check
from vh.util import raises

INTS = {"int": int, "np64": np.int64, "np32": np.int32}


def twice(fn: Any, seed: int) -> Any:
    """The object made from the seed, after checking that the seed determines it and that another one differs."""
    a, b = fn(np.random.default_rng(seed)), fn(np.random.default_rng(seed))
    return a, b


@st.composite
def matrix_cases(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(["herm", "unit", "dm", "dm", "dm", "gauss", "state", "none"]))
    dim = draw(st.integers(1, 9))
    return {"kind": kind, "dim": dim, "rank": draw(st.one_of(st.none(), st.integers(1, dim), st.just(1))), "seed": draw(st.integers(0, 2**32 - 1)), "int": draw(st.sampled_from(sorted(INTS))), "sig": draw(st.sampled_from([None, "ginibre", 0.3, 2.0])), "n": draw(st.integers(0, 6))}


def matrix_oracle(case: Any, info: Info) -> None:
    kind, n = case["kind"], case["dim"]
    dim = INTS[case["int"]](n)
    rank = case["rank"]
    fns = {
        "herm": lambda r: ro.rand_herm(dim, r), "unit": lambda r: ro.rand_unit(dim, r),
        "dm": lambda r: ro.rand_dm(dim, r) if rank is None else ro.rand_dm(dim, r, INTS[case["int"]](rank)) if rank % 2 else ro.rand_dm(dim, rng=r, rank=rank),
        "gauss": lambda r: ro.rand_gauss_cpx_mat(n, r) if case["sig"] is None else ro.rand_gauss_cpx_mat(n, r, case["sig"]), "state": lambda r: ro.rand_state_vector(case["n"], r),
    }
    if kind == "none":
        # without a generator: a warning, and valid objects
        for fn in (lambda: ro.rand_unit(dim), lambda: ro.rand_dm(dim, rank=rank), lambda: ro.rand_state_vector(case["n"])):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                m = fn()
            check(w, "no warning for the default generator")
            check(abs(np.linalg.norm(m) - 1) < 1e-9 if m.ndim == 1 else (np.allclose(m @ m.conj().T, np.eye(n)) or abs(np.trace(m) - 1) < 1e-9), "invalid object from the default generator")
        return
    m, again = twice(fns[kind], case["seed"])
    check(np.array_equal(m, again), "the seed does not determine the object")
    if not (kind == "state" and case["n"] == 0):
        other = fns[kind](np.random.default_rng(case["seed"] + 1))
        check(not np.array_equal(m, other) or (kind == "dm" and n == 1), "another seed gives the same object")
    check(m.dtype == np.complex128, lambda: f"type {m.dtype}")
    check(np.isfinite(m).all(), "entries that are not finite")
    if kind == "state":
        check(m.shape == (2 ** case["n"],) and abs(np.linalg.norm(m) - 1) < 1e-9, lambda: f"state of shape {m.shape} and norm {np.linalg.norm(m)}")
        check(case["n"] < 1 or (np.abs(m.imag).max() > 0 and np.abs(m.real).max() > 0), "amplitudes are not complex")
        info.nt(case["n"] > 1)
        info.label("state")
        return
    check(m.shape == (n, n), lambda: f"{kind} of shape {m.shape} for dimension {n}")
    if kind == "herm":
        check(np.allclose(m, m.conj().T, atol=1e-12), "not Hermitian")
        check(n == 1 or np.abs(m.imag).max() > 0, "real matrix")
    elif kind == "unit":
        check(np.allclose(m @ m.conj().T, np.eye(n), atol=1e-9) and np.allclose(m.conj().T @ m, np.eye(n), atol=1e-9), "not unitary")
    elif kind == "dm":
        check(np.allclose(m, m.conj().T, atol=1e-12), "not Hermitian")
        check(abs(np.trace(m) - 1) < 1e-9, lambda: f"trace {np.trace(m)}")
        ev = np.linalg.eigvalsh(m)
        check(ev.min() > -1e-12, lambda: f"eigenvalues {ev}")
        got = int((ev > 1e-13).sum())
        check(got == (rank or n), lambda: f"rank {got} instead of {rank or n}: {ev}")
        check(raises(ValueError, lambda: ro.rand_dm(n, np.random.default_rng(0), n + 1)) is not None, "a rank beyond the dimension is accepted")
    info.nt(n > 1)
    info.label(kind, f"rank{'full' if rank in (None, n) else 'partial'}")


@st.composite
def channel_cases(draw: Any) -> dict[str, Any]:
    dim = draw(st.sampled_from([2, 2, 4, 4, 8]))
    return {"dim": dim, "pauli": draw(st.booleans()), "rank": draw(st.one_of(st.none(), st.just(1), st.integers(1, dim**2), st.integers(1, 4), st.just(dim**2))), "seed": draw(st.integers(0, 2**32 - 1)), "sig": draw(st.sampled_from([None, "ginibre", 0.5, 3.0]))}


def choi_rank(ops: list[np.ndarray]) -> int:
    return int(np.linalg.matrix_rank(np.array([o.reshape(-1) for o in ops]), tol=1e-7))


def channel_oracle(case: Any, info: Info) -> None:
    dim, rank = case["dim"], case["rank"]

    def make(r: Any) -> KrausChannel:
        if case["pauli"]:
            return ro.rand_pauli_channel_kraus(dim, r) if rank is None else ro.rand_pauli_channel_kraus(dim, r, rank)
        return ro.rand_channel_kraus(dim, r, rank) if case["sig"] is None else ro.rand_channel_kraus(dim, r, rank, case["sig"])

    ch, again = twice(make, case["seed"])
    ops = [k.coef * k.operator for k in ch]
    check(len(ops) == len(list(again)) and all(np.array_equal(a, b.coef * b.operator) for a, b in zip(ops, again, strict=True)), "the seed does not determine the channel")
    check(ch.nqubit == round(math.log2(dim)), lambda: f"channel on {ch.nqubit} qubits for dimension {dim}")
    check(all(o.shape == (dim, dim) for o in ops), "shape of the operators")
    tot = sum(o.conj().T @ o for o in ops)
    check(np.allclose(tot, np.eye(dim), atol=1e-7), lambda: f"not trace preserving: {np.round(tot, 4).tolist()}")
    want = dim**2 if rank is None else rank
    check(len(ops) == want, lambda: f"{len(ops)} operators instead of {want}")
    check(choi_rank(ops) == want, lambda: f"rank {choi_rank(ops)} instead of {want}")
    if case["pauli"]:
        n = round(math.log2(dim))
        strings = [ref.kron_all([ref.BASIS1[c] for c in word]) for word in _words(n)]
        seen = []
        for o in ops:
            idx = [i for i, s in enumerate(strings) if abs(np.vdot(s, o) / dim) > 1e-9]
            check(len(idx) == 1, "an operator is not proportional to a Pauli string")
            seen.append(idx[0])
        check(len(set(seen)) == len(seen), "two operators for one Pauli string")
    bad = raises(ValueError, lambda: ro.rand_pauli_channel_kraus(dim, np.random.default_rng(0), 0) if case["pauli"] else ro.rand_channel_kraus(dim, np.random.default_rng(0), 0))
    check(bad is not None, "rank 0 is accepted")
    if case["pauli"]:
        check(raises(ValueError, lambda: ro.rand_pauli_channel_kraus(dim + 1, np.random.default_rng(0))) is not None, "a dimension that is no power of 2 is accepted")
    info.nt(want > 1)
    info.label("Pauli" if case["pauli"] else "general", f"dim{dim}")


def _words(n: int) -> list[tuple[str, ...]]:
    import itertools  # noqa: PLC0415

    return list(itertools.product("IXYZ", repeat=n))


@st.composite
def circuit_cases(draw: Any) -> dict[str, Any]:
    n = draw(st.integers(2, 6))
    pairs = draw(st.lists(st.permutations(list(range(n))).map(lambda p: list(p[:2])), max_size=4))
    return {"n": n, "depth": draw(st.integers(0, 5)), "gate": draw(st.booleans()), "pairs": pairs, "iter": draw(st.booleans()), "flags": draw(st.integers(0, 15)), "params": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 2**32 - 1)), "default": draw(st.integers(0, 5))}


def key(c: Circuit) -> str:
    return repr((c.width, list(c.instruction)))


ALLOWED1 = {"RX", "RY", "RZ", "H", "S", "X", "Y", "Z", "J"}


def circuit_oracle(case: Any, info: Info) -> None:
    n, depth, flags = case["n"], case["depth"], case["flags"]
    params = [Placeholder(f"p{i}") for i in range(case["params"])]
    use = {"use_j": bool(flags & 1), "use_cz": bool(flags & 2), "use_rzz": bool(flags & 4), "use_ccx": bool(flags & 8)}
    if n < 3:
        use["use_ccx"] = False
    pairs = [tuple(p) for p in case["pairs"]]
    if case["gate"]:
        depth = max(depth, 1)

        def make(r: Any) -> Circuit:
            return ro.rand_gate(n, depth, iter(pairs) if case["iter"] else pairs, r, use_rzz=use["use_rzz"])
    else:
        if case["default"] == 0:
            use = {"use_j": True, "use_cz": True, "use_rzz": False, "use_ccx": False}

        def make(r: Any) -> Circuit:
            if case["default"] == 0:
                return ro.rand_circuit(n, depth, r, parameters=params)
            return ro.rand_circuit(n, depth, r, **use, parameters=params or None)

    c, again = twice(make, case["seed"])
    check(key(c) == key(again), "the seed does not determine the circuit")
    check(isinstance(c, Circuit) and c.width == n, lambda: f"width {c.width}")
    check(c.active_qubits == set(range(n)) if hasattr(c, "active_qubits") else True, "measured qubits")
    counts: Counter[str] = Counter()
    singles: Counter[int] = Counter()
    for i in c.instruction:
        k = type(i).__name__
        counts[k] += 1
        angle = getattr(i, "angle", None)
        symbolic = isinstance(angle, Expression)
        check(not symbolic or any(angle is p for p in params), lambda: f"unknown parameter in {i}")  # noqa: B023
        check(angle is None or symbolic or math.isfinite(angle), "angle")
        check(not symbolic or k in ("RX", "RY", "RZ"), "parameter outside a rotation")
        d = conv.gate_desc(type(i)(i.target, 0.1) if symbolic else i)
        qs = [q for q in d[1:] if isinstance(q, int)]
        check(all(0 <= q < n for q in qs) and len(set(qs)) == len(qs), lambda: f"invalid targets in {i}")  # noqa: B023
        if len(qs) == 1:
            check(k in ALLOWED1, lambda: f"unexpected gate {k}")  # noqa: B023
            singles[qs[0]] += 1
    if case["gate"]:
        ent = "RZZ" if use["use_rzz"] else "CNOT"
        check(counts[ent] == depth * len(pairs) and set(counts) <= {ent, "RX", "RZ"}, lambda: f"depth {depth}, pairs {pairs}: gates {dict(counts)}")
        got = [tuple(conv.gate_desc(i)[1:3]) for i in c.instruction if type(i).__name__ == ent]
        check(Counter(got) == Counter(pairs * depth), lambda: f"entangled pairs {got}, requested {pairs} {depth} times")
        check(all(singles[q] == 2 * depth for q in range(n)), lambda: f"rotations {dict(singles)} for depth {depth}")
        info.label("rand_gate")
    else:
        check(("J" not in counts) or use["use_j"], "J gates although use_j is False")
        for name, flag in (("CZ", "use_cz"), ("RZZ", "use_rzz"), ("CCX", "use_ccx")):
            check((counts[name] > 0) == (use[flag] and depth > 0), lambda: f"{counts[name]} {name} gates with {flag}={use[flag]} and depth {depth}")  # noqa: B023
        check(all(singles[q] == depth for q in range(n)), lambda: f"single-qubit gates {dict(singles)} for depth {depth}")
        check((counts["CNOT"] > 0) == (depth > 0), "CNOT layers")
        info.label("rand_circuit", "parameters" if params else "")
    nums = {p: 0.25 for p in params}
    cc = c.with_parameters(nums) if nums else c
    check(not cc.is_parameterized(), "parameters other than the given ones")
    if n <= 3 and len(cc.instruction) <= 60:
        # the circuit is valid: it runs and transpiles
        desc = conv.describe_circuit(cc)
        vec = cc.simulate_statevector().statevec.flatten() if hasattr(cc, "simulate_statevector") else np.asarray(cc.simulate().state.flatten())
        want = ref.circuit_map(n, desc["ops"])[0] @ np.full(2**n, 2 ** (-n / 2), dtype=complex)
        check(ref.same_up_to_phase(np.asarray(vec), want), "simulation of the circuit")
    info.nt(depth > 0)


# --------------------------------------------------------------- distributions

def stat_cases(tier: str) -> Iterator[dict[str, Any]]:
    for s in range(2 if tier == "quick" else 12):
        for kind in ("haar2", "haar3", "haar1", "gauss", "ginibre", "sig", "dm", "pauli", "gates", "pairs"):
            yield {"kind": kind, "seed": s}


def stat_oracle(case: Any, info: Info) -> None:
    kind = case["kind"]
    rng = np.random.default_rng([case["seed"], 77])
    big = 2000
    if kind.startswith("haar"):
        d = int(kind[4:])
        us = np.array([ro.rand_unit(d, rng) for _ in range(big)])
        # Haar moments: E U = 0, E|tr U|^2 = 1, E|tr U^2|^2 = min(2, d), E|U_ij|^4 = 2/(d(d+1))
        check(np.abs(us.mean(axis=0)).max() < 9 / math.sqrt(big * d), "the mean of Haar unitaries is not 0")
        check(abs((np.abs(np.trace(us, axis1=1, axis2=2)) ** 2).mean() - 1) < 9 / math.sqrt(big), "second moment of the trace of Haar unitaries")
        tr2 = np.abs(np.trace(us @ us, axis1=1, axis2=2)) ** 2
        check(abs(tr2.mean() - min(2, d)) < 25 / math.sqrt(big), lambda: f"moment of tr U^2: {tr2.mean()}")
        check(np.abs((np.abs(us) ** 4).mean(axis=0) - 2 / (d * (d + 1))).max() < 9 * 0.4 / math.sqrt(big), "fourth moments of the entries")
        det = np.linalg.det(us)
        check(abs(det.mean()) < 9 / math.sqrt(big) and abs((det**2).mean()) < 9 / math.sqrt(big), "the determinants of Haar unitaries are not uniform")
    elif kind in ("gauss", "ginibre", "sig"):
        d = 60
        sig = {"gauss": None, "ginibre": "ginibre", "sig": 1.7}[kind]
        want = {"gauss": 1 / math.sqrt(2), "ginibre": 1 / math.sqrt(2 * d), "sig": 1.7}[kind]
        m = ro.rand_gauss_cpx_mat(d, rng, sig)
        for part in (m.real, m.imag):
            check(abs(part.std() / want - 1) < 8 / math.sqrt(2 * d * d), lambda: f"standard deviation {part.std()} instead of {want}")  # noqa: B023
            check(abs(part.mean() / want) < 8 / d, "mean")
        check(abs((m.real * m.imag).mean()) < 8 * want**2 / d, "correlated parts")
    elif kind == "dm":
        ms = np.array([ro.rand_dm(2, rng, 1) for _ in range(big)])
        z = (ms[:, 0, 0] - ms[:, 1, 1]).real
        x = 2 * ms[:, 0, 1].real
        y = -2 * ms[:, 0, 1].imag
        for v in (x, y, z):
            check(abs(v.mean()) < 9 / math.sqrt(3 * big) and abs((v**2).mean() - 1 / 3) < 9 * 0.3 / math.sqrt(big), lambda: f"pure states are not uniform on the sphere: {v.mean()}, {(v**2).mean()}")  # noqa: B023
    elif kind == "pauli":
        seen: Counter[str] = Counter()
        for _ in range(400):
            (k,) = ro.rand_pauli_channel_kraus(2, rng, 1)
            o = k.coef * k.operator
            seen[max("IXYZ", key=lambda p: abs(np.vdot(ref.BASIS1[p], o)))] += 1
        check(all(40 < seen[p] < 180 for p in "IXYZ"), lambda: f"Pauli channels of rank 1 over 400 samples: {dict(seen)}")
    elif kind == "gates":
        a, b = Placeholder("a"), Placeholder("b")
        c = ro.rand_circuit(3, 400, rng, use_rzz=True, use_ccx=True, parameters=[a, b])
        names = {type(i).__name__ for i in c.instruction}
        check(names == {"CNOT", "CZ", "RZZ", "CCX", "SWAP", "RX", "RY", "RZ", "H", "S", "X", "Y", "Z", "J"}, lambda: f"gates {sorted(names)} in 400 layers")
        sym = {(type(i).__name__, i.angle.name) for i in c.instruction if isinstance(getattr(i, "angle", None), Placeholder)}
        check(len(sym) == 6, lambda: f"parameterised rotations {sym} in 400 layers")
    else:
        c = ro.rand_circuit(4, 200, rng)
        for name in ("CNOT", "CZ", "SWAP"):
            ps = {tuple(conv.gate_desc(i)[1:]) for i in c.instruction if type(i).__name__ == name}
            check(len(ps) == 12, lambda: f"pairs for {name} in 200 layers: {sorted(ps)}")  # noqa: B023
        c = ro.rand_circuit(4, 300, rng, use_ccx=True)
        ts = {tuple(conv.gate_desc(i)[1:]) for i in c.instruction if type(i).__name__ == "CCX"}
        check(len({t[2] for t in ts}) == 4 and len(ts) == 24, lambda: f"triples {sorted(ts)} in 300 layers")
    info.nt()
    info.label(kind)


SUBS = [
    Sub("matrices", matrix_cases, matrix_oracle, 2500, 60000, shards=4, rule="dimension above 1"),
    Sub("channels", channel_cases, channel_oracle, 800, 20000, shards=4, rule="several Kraus operators"),
    Sub("circuits", circuit_cases, circuit_oracle, 1500, 40000, shards=4, rule="at least one layer"),
    Sub("distributions", lambda: st.sampled_from(list(stat_cases("quick"))), stat_oracle, 20, 120, shards=4, rule="a moment or support of the distribution compared", enumerate=stat_cases),
]
