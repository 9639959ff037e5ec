"""A register of named qubits in a stabilizer state, for reference computations on many qubits.

Rows are the generators i^p X^x Z^z of the stabilizer group, with x and z as bit masks.
"""
from __future__ import annotations

import functools
from typing import Any, Iterable, Sequence

import numpy as np

from vh.core import HarnessError

X, Z = np.array([[0, 1], [1, 0]], dtype=complex), np.diag([1.0 + 0j, -1])
WORDS = {(a, b): np.linalg.matrix_power(X, a) @ np.linalg.matrix_power(Z, b) for a in (0, 1) for b in (0, 1)}


def word(m: np.ndarray) -> tuple[int, int, int]:
    """(p, a, b) with m = i^p X^a Z^b."""
    for (a, b), w in WORDS.items():
        for p in range(4):
            if np.allclose(m, 1j**p * w, atol=1e-7):
                return p, a, b
    raise HarnessError(f"not a Pauli operator: {m}")


@functools.lru_cache(maxsize=None)
def images(data: bytes) -> tuple[tuple[int, int, int], tuple[int, int, int]]:
    m = np.frombuffer(data, dtype=complex).reshape(2, 2)
    return word(m @ X @ m.conj().T), word(m @ Z @ m.conj().T)


@functools.lru_cache(maxsize=None)
def projector(data: bytes) -> tuple[int, int, int]:
    """The Pauli operator (with its sign) of which the given vector is the eigenvector of value 1."""
    v = np.frombuffer(data, dtype=complex)
    return word(2 * np.outer(v, v.conj()) - np.eye(2))


def mul(r: tuple[int, int, int], s: tuple[int, int, int]) -> tuple[int, int, int]:
    return (r[0] + s[0] + 2 * (r[2] & s[1]).bit_count()) % 4, r[1] ^ s[1], r[2] ^ s[2]


def anti(r: tuple[int, int, int], s: tuple[int, int, int]) -> bool:
    return bool(((r[1] & s[2]).bit_count() + (r[2] & s[1]).bit_count()) % 2)


class Stab:
    def __init__(self) -> None:
        self.slot: dict[int, int] = {}
        self.next = 0
        self.rows: list[tuple[int, int, int]] = []
        self.weight = 1.0

    @property
    def nodes(self) -> list[int]:
        return list(self.slot)

    def copy(self) -> "Stab":
        r = Stab()
        r.slot, r.next, r.rows, r.weight = dict(self.slot), self.next, list(self.rows), self.weight
        return r

    def norm2(self) -> float:
        return self.weight

    def add(self, node: int, vec: np.ndarray) -> None:
        p, a, b = projector(np.asarray(vec, dtype=complex).tobytes())
        self.slot[node] = self.next
        self.rows.append((p, a << self.next, b << self.next))
        self.next += 1

    def op1(self, node: int, m: np.ndarray) -> None:
        ix, iz = images(np.ascontiguousarray(m, dtype=complex).tobytes())
        s = self.slot[node]
        for i, (p, x, z) in enumerate(self.rows):
            bx, bz = x >> s & 1, z >> s & 1
            loc = (0, 0, 0)
            if bx:
                loc = mul(loc, ix)
            if bz:
                loc = mul(loc, iz)
            self.rows[i] = ((p + loc[0]) % 4, x & ~(1 << s) | loc[1] << s, z & ~(1 << s) | loc[2] << s)

    def cz(self, a: int, b: int) -> None:
        s, t = self.slot[a], self.slot[b]
        for i, (p, x, z) in enumerate(self.rows):
            xa, xb = x >> s & 1, x >> t & 1
            self.rows[i] = ((p + 2 * (xa & xb)) % 4, x, z ^ (xa << t) ^ (xb << s))

    def op(self, nodes: Sequence[int], m: np.ndarray) -> None:
        raise HarnessError("single-qubit operators and CZ only")

    def bra(self, node: int, vec: np.ndarray) -> None:
        p, a, b = projector(np.asarray(vec, dtype=complex).tobytes())
        s = self.slot[node]
        want = (p, a << s, b << s)
        k = next((i for i, r in enumerate(self.rows) if anti(r, want)), None)
        if k is not None:
            self.weight /= 2
            pivot = self.rows[k]
            self.rows = [mul(r, pivot) if i != k and anti(r, want) else r for i, r in enumerate(self.rows)]
        else:
            k, sign = self.member(want)
            if sign:
                self.weight = 0.0
                want = ((want[0] + 2) % 4, *want[1:])
        rest = [r for i, r in enumerate(self.rows) if i != k]
        self.rows = [mul(r, want) if (r[1] | r[2]) >> s & 1 else r for r in rest]
        if any((r[1] | r[2]) >> s & 1 for r in self.rows):
            raise HarnessError("a generator remains on the measured qubit")
        del self.slot[node]

    def member(self, want: tuple[int, int, int]) -> tuple[int, int]:
        """A generator that occurs in the product giving the operator, and whether the group holds its opposite."""
        n = self.next
        basis: dict[int, tuple[tuple[int, int, int], int]] = {}
        for i, r in enumerate(self.rows):
            used = 1 << i
            while (key := r[1] | r[2] << n) and (top := key.bit_length()) in basis:
                r, used = mul(r, basis[top][0]), used ^ basis[top][1]
            if key:
                basis[top] = (r, used)
        r, used = want, 0
        while (key := r[1] | r[2] << n) and (top := key.bit_length()) in basis:
            r, used = mul(r, basis[top][0]), used ^ basis[top][1]
        if key or r[0] % 2 or not used:
            raise HarnessError("the operator is not determined")
        return used.bit_length() - 1, r[0] // 2

    def canonical(self, order: Sequence[int]) -> list[tuple[int, int, int]]:
        """The reduced generators on the qubits in the given order."""
        n = len(order)
        if sorted(order) != sorted(self.slot) or len(self.rows) != n:
            raise HarnessError(f"{n} qubits, {len(self.slot)} slots, {len(self.rows)} generators")
        rows = []
        for p, x, z in self.rows:
            rows.append((p, sum((x >> self.slot[v] & 1) << i for i, v in enumerate(order)), sum((z >> self.slot[v] & 1) << i for i, v in enumerate(order))))
        rank = 0
        for bit in range(2 * n):
            k = next((i for i in range(rank, n) if (rows[i][1] | rows[i][2] << n) >> bit & 1), None)
            if k is None:
                continue
            rows[rank], rows[k] = rows[k], rows[rank]
            for i in range(n):
                if i != rank and (rows[i][1] | rows[i][2] << n) >> bit & 1:
                    rows[i] = mul(rows[i], rows[rank])
            rank += 1
        if rank != n:
            raise HarnessError("dependent generators")
        return rows

    def same(self, other: "Stab") -> bool:
        order = sorted(self.slot)
        return self.canonical(order) == other.canonical(order)


def graph_state(nodes: Iterable[int], edges: Iterable[Any], ops: Iterable[tuple[int, np.ndarray]] = ()) -> Stab:
    r = Stab()
    for v in nodes:
        r.add(v, np.array([1, 1], dtype=complex) / np.sqrt(2))
    for a, b in edges:
        r.cz(a, b)
    for v, m in ops:
        r.op1(v, m)
    return r
