"""Independent dense reference semantics for patterns, circuits and open graphs (numpy only).

Nothing here calls graphix.  Commands are plain tuples/lists:

  ["N", node, state]       state: name in STATES or ["P", plane, angle/pi]
  ["E", a, b]
  ["M", node, meas, s, t]  meas: ["B", plane, angle/pi] or ["P", axis, +1/-1]; s/t: lists of nodes
  ["X", node, domain] ["Z", node, domain] ["C", node, clifford-hsz-word or 2x2 matrix]
"""
from __future__ import annotations

import itertools
import math
from random import Random
from typing import Any, Iterable, Sequence

import numpy as np

from vh.core import Discard

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
S = np.array([[1, 0], [0, 1j]], dtype=complex)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
BASIS1 = {"I": I2, "X": X, "Y": Y, "Z": Z, "H": H, "S": S}
CZ = np.diag([1, 1, 1, -1]).astype(complex)
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
CCX = np.eye(8, dtype=complex)[[0, 1, 2, 3, 4, 5, 7, 6]]

r2 = 1 / math.sqrt(2)
STATES = {
    "ZERO": np.array([1, 0], dtype=complex), "ONE": np.array([0, 1], dtype=complex),
    "PLUS": np.array([r2, r2], dtype=complex), "MINUS": np.array([r2, -r2], dtype=complex),
    "PLUS_I": np.array([r2, 1j * r2], dtype=complex), "MINUS_I": np.array([r2, -1j * r2], dtype=complex),
}
# plane -> (axis carrying cos, axis carrying sin): the documented convention
PLANE_AXES = {"XY": ("X", "Y"), "YZ": ("Z", "Y"), "XZ": ("Z", "X")}


def expm_pauli(p: np.ndarray, theta: float) -> np.ndarray:
    """exp(-i theta/2 P) for an involution P."""
    return math.cos(theta / 2) * np.eye(p.shape[0]) - 1j * math.sin(theta / 2) * p


def rot(axis: str, a: float) -> np.ndarray:
    return expm_pauli(PAULI[axis], a * math.pi)


def jmat(a: float) -> np.ndarray:
    """J(alpha) = H diag(1, e^{i alpha})."""
    return H @ np.diag([1, np.exp(1j * math.pi * a)])


def bloch_vector(plane: str, angle: float) -> np.ndarray:
    c, s = PLANE_AXES[plane]
    v = dict.fromkeys("XYZ", 0.0)
    v[c] += math.cos(angle * math.pi)
    v[s] += math.sin(angle * math.pi)
    return np.array([v["X"], v["Y"], v["Z"]])


def meas_vector(meas: Sequence[Any]) -> np.ndarray:
    """Bloch vector of the outcome-0 projector."""
    if meas[0] == "B":
        return bloch_vector(meas[1], meas[2])
    v = {"X": (1, 0, 0), "Y": (0, 1, 0), "Z": (0, 0, 1)}[meas[1]]
    return np.array(v, dtype=float) * meas[2]


def flip(v: np.ndarray, s: int, t: int) -> np.ndarray:
    """Conjugate the observable by X^s Z^t."""
    x, y, z = v
    if s:
        y, z = -y, -z
    if t:
        x, y = -x, -y
    return np.array([x, y, z])


def ket_of(v: np.ndarray) -> np.ndarray:
    """+1 eigenvector of v.sigma (v a unit vector)."""
    x, y, z = v
    if z >= 0:
        k = np.array([1 + z, x + 1j * y], dtype=complex)
    else:
        k = np.array([x - 1j * y, 1 - z], dtype=complex)
    return k / np.linalg.norm(k)


def proj_of(v: np.ndarray) -> np.ndarray:
    return (I2 + v[0] * X + v[1] * Y + v[2] * Z) / 2


def state_vec(st: Any) -> np.ndarray:
    if isinstance(st, str):
        return STATES[st]
    if st[0] == "P":
        return planar(st[1], st[2])
    raise ValueError(st)


def planar(plane: str, a: float) -> np.ndarray:
    t = a * math.pi
    if plane == "XY":
        return np.array([r2, r2 * np.exp(1j * t)])
    if plane == "YZ":
        return np.array([math.cos(t / 2), 1j * math.sin(t / 2)])
    return np.array([math.cos(t / 2), math.sin(t / 2)], dtype=complex)


def word(w: Any) -> np.ndarray:
    if isinstance(w, str):
        m = I2
        for ch in w:
            m = m @ BASIS1[ch]
        return m
    return np.asarray(w, dtype=complex)


class Reg:
    """A register of named qubits with one extra trailing axis (for the columns of a map)."""

    def __init__(self, dim: int = 1) -> None:
        self.nodes: list[int] = []
        self.t = np.zeros((dim,), dtype=complex)

    @staticmethod
    def from_inputs(inputs: Sequence[int]) -> "Reg":
        n = len(inputs)
        r = Reg()
        r.nodes = list(inputs)
        r.t = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
        return r

    @staticmethod
    def from_vec(nodes: Sequence[int], vec: np.ndarray) -> "Reg":
        r = Reg()
        r.nodes = list(nodes)
        r.t = np.asarray(vec, dtype=complex).reshape((2,) * len(nodes) + (1,))
        return r

    def copy(self) -> "Reg":
        r = Reg()
        r.nodes = list(self.nodes)
        r.t = self.t
        return r

    def add(self, node: int, vec: np.ndarray) -> None:
        assert node not in self.nodes
        self.t = np.multiply.outer(vec, self.t)
        self.nodes.insert(0, node)

    def op1(self, node: int, m: np.ndarray) -> None:
        i = self.nodes.index(node)
        self.t = np.moveaxis(np.tensordot(m, self.t, axes=(1, i)), 0, i)

    def op(self, nodes: Sequence[int], m: np.ndarray) -> None:
        k = len(nodes)
        idx = [self.nodes.index(x) for x in nodes]
        mt = np.asarray(m).reshape((2,) * (2 * k))
        self.t = np.moveaxis(np.tensordot(mt, self.t, axes=(list(range(k, 2 * k)), idx)), list(range(k)), idx)

    def cz(self, a: int, b: int) -> None:
        i, j = self.nodes.index(a), self.nodes.index(b)
        t = self.t.copy()
        sl: list[Any] = [slice(None)] * t.ndim
        sl[i] = 1
        sl[j] = 1
        t[tuple(sl)] *= -1
        self.t = t

    def bra(self, node: int, vec: np.ndarray) -> None:
        i = self.nodes.index(node)
        self.t = np.tensordot(vec.conj(), self.t, axes=(0, i))
        del self.nodes[i]

    def matrix(self, order: Sequence[int]) -> np.ndarray:
        assert sorted(order) == sorted(self.nodes), (order, self.nodes)
        perm = [self.nodes.index(x) for x in order] + [len(self.nodes)]
        return self.t.transpose(perm).reshape(2 ** len(order), -1)

    def norm2(self) -> float:
        return float(np.sum(np.abs(self.t) ** 2))


def parity(dom: Iterable[int], out: dict[int, int]) -> int:
    p = 0
    for n in dom:
        p ^= out[n]
    return p


def step(r: Reg, cmd: Sequence[Any], out: dict[int, int]) -> None:
    """Apply one command; for M the outcome out[node] must be set already."""
    k = cmd[0]
    if k == "N":
        r.add(cmd[1], state_vec(cmd[2]))
    elif k == "E":
        r.cz(cmd[1], cmd[2])
    elif k == "M":
        v = flip(meas_vector(cmd[2]), parity(cmd[3], out), parity(cmd[4], out))
        if out[cmd[1]]:
            v = -v
        r.bra(cmd[1], ket_of(v))
    elif k == "X":
        if parity(cmd[2], out):
            r.op1(cmd[1], X)
    elif k == "Z":
        if parity(cmd[2], out):
            r.op1(cmd[1], Z)
    elif k == "C":
        r.op1(cmd[1], word(cmd[2]))
    else:
        raise ValueError(cmd)


def measured(cmds: Iterable[Sequence[Any]]) -> list[int]:
    return [c[1] for c in cmds if c[0] == "M"]


class TooWide(Discard):
    """The simulation would need too many qubits at once."""


MAX_WIDTH = 15


def lazy(cmds: Sequence[Sequence[Any]]) -> list[Sequence[Any]]:
    """Equivalent order in which every command is delayed until a measurement needs it.

    Only commands on disjoint qubits, and pairs of E, are exchanged, which is sound once the outcomes are fixed.  Of many
    measurements, the one that needs the fewest new qubits comes first."""
    deps: list[list[int]] = []
    last: dict[int, int] = {}
    since: dict[int, list[int]] = {}
    for i, c in enumerate(cmds):
        d: list[int] = []
        for q in c[1:3] if c[0] == "E" else c[1:2]:
            if q in last:
                d.append(last[q])
            if c[0] == "E":
                since.setdefault(q, []).append(i)
            else:
                d += since.pop(q, [])
                last[q] = i
        deps.append(d)
    done: set[int] = set()
    order: list[Sequence[Any]] = []

    def closure(i: int) -> list[int]:
        seen = {i}
        stack = [i]
        while stack:
            for j in deps[stack.pop()]:
                if j not in seen and j not in done:
                    seen.add(j)
                    stack.append(j)
        return sorted(seen)

    def need(todo: Iterable[int]) -> None:
        for j in todo:
            if j not in done:
                done.add(j)
                order.append(cmds[j])

    ms = [i for i, c in enumerate(cmds) if c[0] == "M"]
    if len(ms) <= 10:
        for i in ms:
            if i not in done:
                need(closure(i))
    else:
        closures = {i: closure(i) for i in ms}
        while closures:
            closures = {i: [j for j in cl if j not in done] for i, cl in closures.items()}
            best = min(closures, key=lambda i: (sum((cmds[j][0] == "N") - (cmds[j][0] == "M") for j in closures[i]), len(closures[i]), i))
            need(closures.pop(best))
            closures = {i: cl for i, cl in closures.items() if i not in done}
    need(range(len(cmds)))
    return order


def width(cmds: Iterable[Sequence[Any]], inputs: int) -> int:
    """Largest number of tensor axes while running cmds in this order."""
    w = best = 2 * inputs
    for c in cmds:
        w += (c[0] == "N") - (c[0] == "M")
        best = max(best, w)
    return best


def run_branch(desc: dict[str, Any], outcomes: dict[int, int], reg: Reg | None = None) -> np.ndarray:
    """Unnormalised linear map (2^out x 2^in) of the branch."""
    r = Reg.from_inputs(desc["in"]) if reg is None else reg.copy()
    out = dict(desc.get("results", {}))
    out.update(outcomes)
    cmds = desc.get("_lazy")
    if cmds is None:
        cmds = lazy(desc["cmds"])
        if width(cmds, len(desc["in"])) > MAX_WIDTH:
            raise TooWide(f"width {width(cmds, len(desc['in']))}")
        if isinstance(desc, dict):
            desc["_lazy"] = cmds
    for c in cmds:
        step(r, c, out)
    return r.matrix(desc["out"])


def branch(desc: dict[str, Any], outcomes: dict[int, int], reg: Reg | None = None) -> np.ndarray:
    """The map of a branch, scaled so that an ordinary branch of a pattern with many measurements does not vanish."""
    return run_branch(desc, outcomes, reg) * 2 ** (max(0, len(measured(desc["cmds"])) - 8) / 2)


def branch_list(ms: Sequence[int], limit_bits: int, picks: Sequence[int]) -> list[dict[int, int]]:
    """All outcome assignments if there are at most 2^limit_bits, else those encoded by picks (plus all-0, all-1)."""
    m = len(ms)
    if m <= limit_bits:
        codes: Iterable[int] = range(2**m)
    else:
        mask = (1 << m) - 1
        codes = dict.fromkeys([0, mask, *[p & mask if m <= 20 else Random(p).getrandbits(m) for p in picks]])
    return [{n: (c >> i) & 1 for i, n in enumerate(ms)} for c in codes]


def same_up_to_phase(a: np.ndarray, b: np.ndarray, tol: float = 1e-7) -> bool:
    """Equality including norm, up to a global phase."""
    if a.shape != b.shape:
        return False
    ip = np.vdot(a, b)
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if abs(na - nb) > tol:
        return False
    if abs(ip) < 1e-11:
        return na < 1e-5 and nb < 1e-5
    return bool(np.linalg.norm(a * (ip / abs(ip)) - b) <= tol)


def prop_to(a: np.ndarray, b: np.ndarray, tol: float = 1e-6) -> bool:
    """a and b are both non-zero and proportional."""
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 1e-9 or nb < 1e-9:
        return False
    return same_up_to_phase(a / na, b / nb, tol)


# ---------------------------------------------------------------- circuits

def gate_matrix(op: Sequence[Any]) -> tuple[list[int], np.ndarray] | None:
    """(qubits, matrix) of a JSON gate, None for a measurement."""
    k = op[0]
    if k in ("H", "S", "X", "Y", "Z", "I"):
        return [op[1]], BASIS1[k]
    if k in ("RX", "RY", "RZ"):
        return [op[1]], rot(k[1], op[2])
    if k == "J":
        return [op[1]], jmat(op[2])
    if k == "CNOT":  # control, target
        return [op[1], op[2]], CNOT
    if k == "CZ":
        return [op[1], op[2]], CZ
    if k == "SWAP":
        return [op[1], op[2]], SWAP
    if k == "RZZ":  # control, target, angle
        return [op[1], op[2]], expm_pauli(np.kron(Z, Z), op[3] * math.pi)
    if k == "CCX":  # c1, c2, target
        return [op[1], op[2], op[3]], CCX
    if k == "M":
        return None
    raise ValueError(op)


def circuit_map(width: int, ops: Sequence[Sequence[Any]], outcomes: Sequence[int] = (), vec: np.ndarray | None = None) -> tuple[np.ndarray, list[int]]:
    """Unnormalised map of the circuit for the given outcomes (program order).

    Measurements destroy their qubit.  Returns (matrix, remaining qubits in order).
    """
    r = Reg.from_inputs(list(range(width))) if vec is None else Reg.from_vec(list(range(width)), vec)
    it = iter(outcomes)
    for op in ops:
        g = gate_matrix(op)
        if g is None:
            v = meas_vector(["P", op[2], 1])
            if next(it):
                v = -v
            r.bra(op[1], ket_of(v))
        else:
            r.op(*g)
    rest = sorted(r.nodes)
    return r.matrix(rest), rest


def kron_all(ms: Iterable[np.ndarray]) -> np.ndarray:
    out = np.ones((1, 1), dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def embed(m: np.ndarray, qubits: Sequence[int], n: int) -> np.ndarray:
    """Full 2^n matrix of m acting on the listed qubits (qubit 0 = most significant)."""
    r = Reg.from_inputs(list(range(n)))
    r.op(list(qubits), m)
    return r.matrix(list(range(n)))


def pauli_string(ps: Sequence[str]) -> np.ndarray:
    return kron_all(PAULI[p] for p in ps)


# ---------------------------------------------------------------- open graphs

def opengraph_map(og: dict[str, Any]) -> np.ndarray:
    """Unnormalised map of the open graph with every outcome 0: <+_m| prod CZ |+>_{non inputs}."""
    meas = {int(k): v for k, v in og["meas"].items()} if isinstance(og["meas"], dict) else {n: m for n, m in og["meas"]}
    cmds: list[list[Any]] = [["N", n, "PLUS"] for n in og["nodes"] if n not in set(og["in"])]
    cmds += [["E", *e] for e in og["edges"]]
    cmds += [["M", n, meas[n], [], []] for n in og["nodes"] if n in meas]
    return run_branch({"in": list(og["in"]), "cmds": cmds, "out": list(og["out"])}, dict.fromkeys(meas, 0))


def all_subsets(xs: Sequence[int]) -> Iterable[tuple[int, ...]]:
    return itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))
