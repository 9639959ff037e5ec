"""Helpers shared by the checks."""
from __future__ import annotations

import contextlib
from typing import Any, Callable, Iterable, Mapping, Sequence

import numpy as np
from hypothesis import strategies as st

from graphix.branch_selector import BranchSelector
from vh import ref
from vh.core import Discard, Fail, Info, check


@st.composite
def vecs(draw: Any, n: int) -> list[list[float]]:
    """2^n complex amplitudes [re, im], normalised, never close to zero norm."""
    raw = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)), min_size=2**n, max_size=2**n))
    v = np.array([complex(a, b) for a, b in raw])
    if np.linalg.norm(v) < 0.5:
        v[draw(st.integers(0, 2**n - 1))] = 1
    v = v / np.linalg.norm(v)
    return [[float(z.real), float(z.imag)] for z in v]


def vec(case: Sequence[Sequence[float]]) -> np.ndarray:
    return np.array([complex(a, b) for a, b in case])


def mats(n: int, lo: int = -3, hi: int = 3) -> Any:
    k = 4**n
    return st.lists(st.tuples(st.integers(lo, hi), st.integers(lo, hi)).map(list), min_size=k, max_size=k)


def ops(n: int) -> Any:
    """Operators on n qubits: arbitrary matrices, nearly product ones, diagonal ones, permutations."""
    return st.one_of(
        mats(n), mats(n), mats(n),
        st.fixed_dictionaries({"w": st.lists(mats(1), min_size=n, max_size=n), "e": st.sampled_from([0.0, 1.0, 0.1, 0.03, 0.01, 1e-3]), "m": mats(n, -1, 1)}),
        st.fixed_dictionaries({"d": vecs(n)}),
        st.fixed_dictionaries({"p": st.integers(0, 2**15 - 1), "n": st.just(n)}),
    )


def mat(case: Any) -> np.ndarray:
    if isinstance(case, dict):
        if "w" in case:
            return kron(mat(f) for f in case["w"]) + case["e"] * mat(case["m"])
        if "d" in case:
            return np.diag(vec(case["d"]))
        d = 2 ** case["n"]
        return np.eye(d)[permutation(d, case["p"])].astype(complex)
    v = vec(case)
    d = int(round(np.sqrt(len(v))))
    return v.reshape(d, d)


def unitary_from(m: np.ndarray) -> np.ndarray:
    """A unitary built from an arbitrary integer matrix (QR of a regularised copy)."""
    q, r = np.linalg.qr(m + (7.5 + 0.25j) * np.eye(m.shape[0]))
    return q


def unitary_of(case: Any) -> np.ndarray:
    """A unitary of the same shape as the operator: arbitrary, nearly product, diagonal, permutation."""
    if not isinstance(case, dict):
        return unitary_from(mat(case))
    if "w" in case:
        h = mat(case["m"])
        h = 0.5j * case["e"] * (h + h.conj().T)
        one = np.eye(len(h))
        return kron(unitary_from(mat(f)) for f in case["w"]) @ (one - h) @ np.linalg.inv(one + h)
    if "d" in case:
        return np.diag(np.exp(1j * np.angle(vec(case["d"]))))
    return mat(case)


def kron(ms: Any) -> np.ndarray:
    r = np.eye(1)
    for m in ms:
        r = np.kron(r, m)
    return r


def permutation(d: int, code: int) -> list[int]:
    left, r = list(range(d)), []
    while left:
        code, k = divmod(code, len(left))
        r.append(left.pop(k))
    return r


class Script(BranchSelector):
    """Branch selector that follows a prescription but never takes a branch of probability below eps.

    Records every (qubit, probability of 0, chosen outcome)."""

    def __init__(self, want: Mapping[int, int] | Callable[[int], int], eps: float = 1e-6, calc: bool = True) -> None:
        self.want = want
        self.eps = eps
        self.calc = calc
        self.log: list[tuple[int, float, int]] = []

    def measure(self, qubit: int, f_expectation0: Callable[[], float], rng: Any = None, *, stacklevel: int = 1) -> Any:
        w = self.want(qubit) if callable(self.want) else self.want[qubit]
        p = float("nan")
        if self.calc:
            p = float(np.real(f_expectation0()))
            if (p if w == 0 else 1 - p) < self.eps:
                w = 1 - w
        self.log.append((qubit, p, w))
        return w

    @property
    def outcomes(self) -> dict[int, int]:
        return {q: w for q, _, w in self.log}


def psi_of(state: Any) -> np.ndarray:
    return np.asarray(state.flatten() if hasattr(state, "flatten") else state).reshape(-1)


def same_state(a: np.ndarray, b: np.ndarray, tol: float = 1e-7) -> bool:
    """Normalised vectors equal up to phase."""
    a = np.asarray(a).reshape(-1)
    b = np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return False
    return ref.prop_to(a, b, tol)


def raises(exc: type[BaseException] | tuple[type[BaseException], ...], fn: Callable[[], Any]) -> BaseException | None:
    try:
        fn()
    except exc as e:
        return e
    return None


def compare_branches(d1: dict[str, Any], d2: dict[str, Any], picks: Sequence[int], info: Info, what: str,
                     limit_bits: int = 5, translate: Callable[[dict[int, int]], dict[int, int]] | None = None,
                     tol: float = 1e-7) -> int:
    """d2 on branch b equals d1 on branch translate(b), including probability, for (sampled) all b."""
    ms1, ms2 = ref.measured(d1["cmds"]), ref.measured(d2["cmds"])
    check(sorted(ms1) == sorted(ms2), lambda: f"{what}: measured nodes changed from {sorted(ms1)} to {sorted(ms2)}")
    check(d1["in"] == d2["in"], lambda: f"{what}: input nodes changed {d1['in']} -> {d2['in']}")
    check(len(d1["out"]) == len(d2["out"]), lambda: f"{what}: number of outputs changed")
    n = 0
    big = 2 ** (max(0, len(ms2) - 8) / 2)  # keeps improbable branches of large patterns visible
    for b in ref.branch_list(ms2, limit_bits, picks):
        m2 = ref.run_branch(d2, b) * big
        m1 = ref.run_branch(d1, translate(b) if translate else b) * big
        n += 1
        if not ref.same_up_to_phase(m1, m2, tol * max(1.0, float(np.linalg.norm(m1)))):
            raise Fail(f"{what}: branch {b} differs:\noriginal {np.round(m1, 4).tolist()}\nresult   {np.round(m2, 4).tolist()}")
    info.extra += n
    return n


def deterministic_map(d: dict[str, Any], picks: Sequence[int], info: Info | None, what: str, limit_bits: int = 5,
                      tol: float = 1e-6) -> np.ndarray:
    """Check all (sampled) branches agree up to phase with equal norm; return the map normalised to norm sqrt(dim in)."""
    ms = ref.measured(d["cmds"])
    first = None
    n = 0
    for b in ref.branch_list(ms, limit_bits, picks):
        m = ref.run_branch(d, b) * 2 ** (len(ms) / 2)
        n += 1
        if first is None:
            first = m
        elif not ref.same_up_to_phase(first, m, tol):
            raise Fail(f"{what}: branch {b} implements another map than branch 0:\n{np.round(first, 4).tolist()}\n{np.round(m, 4).tolist()}")
    if info is not None:
        info.extra += n
    assert first is not None
    return first


def random_unit_picks() -> Any:
    return st.lists(st.integers(0, 2**20 - 1), min_size=3, max_size=5)
