"""C18: channels against their documented formulas, and noisy simulation against a dense mixed-state reference.

Built-in channels at generated probabilities and arbitrary generated Kraus families (valid, perturbed, malformed) are
compared with the documented maps; patterns run with generated trees of noise models (built-in, composed, user-defined)
and readout flips, along prescribed branches, and the final density matrix, the offered probabilities and the recorded
results are compared with a reference that inserts the documented channels at the documented places.  Readout-error
frequencies are tested statistically with fixed seeds and 6-sigma bounds.
"""
from __future__ import annotations

import itertools
import math
import warnings
from dataclasses import dataclass
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix import Pattern, command
from graphix.branch_selector import ConstBranchSelector
from graphix.channels import (
    KrausChannel,
    KrausData,
    amplitude_damping_channel,
    dephasing_channel,
    depolarising_channel,
    pauli_channel,
    two_qubit_amplitude_damping_channel,
    two_qubit_depolarising_channel,
    two_qubit_depolarising_tensor_channel,
)
from graphix.command import CommandKind
from graphix.measurements import Measurement
from graphix.noise_models import (
    AmplitudeDampingNoise,
    AmplitudeDampingNoiseModel,
    ApplyNoise,
    ComposeNoiseModel,
    DepolarisingNoise,
    DepolarisingNoiseModel,
    Noise,
    NoiseModel,
    TwoQubitAmplitudeDampingNoise,
    TwoQubitDepolarisingNoise,
)
from graphix.noise_models.noise_model import NoiselessNoiseModel
from graphix.sim.base_backend import NoiseNotSupportedError
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
from vh import conv, gen, ref
from vh.core import Info, Sub, check
from vh.util import Script, mat, mats, raises, unitary_from, vec, vecs

PAULI = [np.eye(2, dtype=complex), np.array([[0, 1], [1, 0]], dtype=complex), np.array([[0, -1j], [1j, 0]]), np.diag([1.0 + 0j, -1])]
PAIRS = [np.kron(a, b) for a, b in itertools.product(PAULI, PAULI)]


def quiet(fn: Any, *a: Any, **kw: Any) -> Any:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **kw)


def operators(kind: str, p: Any) -> list[np.ndarray]:
    """Kraus operators of the documented map."""
    if kind == "dephasing":
        return [np.sqrt(1 - p) * PAULI[0], np.sqrt(p) * PAULI[3]]
    if kind == "depolarising":
        return [np.sqrt(1 - p) * PAULI[0]] + [np.sqrt(p / 3) * x for x in PAULI[1:]]
    if kind == "pauli":
        return [np.sqrt(max(0.0, 1 - sum(p))) * PAULI[0]] + [np.sqrt(q) * x for q, x in zip(p, PAULI[1:])]
    if kind == "depolarising2":
        return [np.sqrt(1 - p) * PAIRS[0]] + [np.sqrt(p / 15) * x for x in PAIRS[1:]]
    if kind == "damping":
        return [np.diag([1.0 + 0j, np.sqrt(1 - p)]), np.array([[0, np.sqrt(p)], [0, 0]], dtype=complex)]
    one = operators("damping" if kind == "damping2" else "depolarising", p)
    return [np.kron(a, b) for a in one for b in one]


CHANNELS = {"dephasing": dephasing_channel, "depolarising": depolarising_channel, "pauli": lambda p: pauli_channel(*p), "depolarising2": two_qubit_depolarising_channel,
            "tensor2": two_qubit_depolarising_tensor_channel, "damping": amplitude_damping_channel, "damping2": two_qubit_amplitude_damping_channel}
NOISES = {"depolarising": DepolarisingNoise, "depolarising2": TwoQubitDepolarisingNoise, "damping": AmplitudeDampingNoise, "damping2": TwoQubitAmplitudeDampingNoise}


def superop(ks: list[np.ndarray]) -> np.ndarray:
    return sum(np.kron(k, k.conj()) for k in ks)


def family(ch: KrausChannel) -> list[np.ndarray]:
    return [k.coef * k.operator for k in ch]


probs = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.75, 1e-9, 1 - 1e-9, 0.25]), st.integers(0, 1000).map(lambda k: k / 1000), st.integers(0, 1024).map(lambda k: k / 1024))


@st.composite
def channel_cases(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(sorted(CHANNELS)))
    valid = draw(st.integers(0, 4)) > 0
    if kind == "pauli":
        w = [draw(st.integers(0, 8)) for _ in range(4)]
        total = draw(st.sampled_from([8, 16, 32]))
        if not any(w):
            w[0] = 1
        p: Any = [x * total / sum(w) / total for x in w[1:]] if draw(st.booleans()) and sum(w) in (1, 2, 4, 8, 16, 32) else [min(x, 10) / 32 for x in w[1:]]
        if not valid:
            i = draw(st.integers(0, 2))
            p[i] = draw(st.sampled_from([-0.125, 1.25, -1.0]))
            if draw(st.booleans()):
                p = [0.5, 0.25, 0.5]
    else:
        p = draw(probs) if valid else draw(st.sampled_from([-0.25, 1.5, -1e-3, 1.001, 2.0, -1.0, float("inf"), float("-inf")]))
    return {"kind": kind, "p": p, "valid": valid, "rho": draw(mats(2)), "how": draw(st.integers(0, 2))}


def channels_oracle(case: Any, info: Info) -> None:
    kind, p = case["kind"], case["p"]
    info.label(kind)
    if not case["valid"]:
        check(raises(ValueError, lambda: quiet(CHANNELS[kind], p)) is not None, f"{kind} channel with {p} is not rejected")
        if kind in NOISES:
            check(raises(ValueError, lambda: NOISES[kind](p)) is not None, f"{kind} noise with {p} is not rejected")
            noise = NOISES[kind](0.5)
            check(raises(ValueError, lambda: setattr(noise, "prob", p)) is not None, f"probability {p} can be assigned to {kind} noise")
            check(noise.prob == 0.5, "a rejected probability was assigned")
        info.nt()
        info.label("rejected")
        return
    want = operators(kind, p)
    n = 2 if kind.endswith("2") else 1
    chans = [CHANNELS[kind](p)]
    if kind in NOISES:
        noise = NOISES[kind](p)
        check(noise.nqubits == n and noise.prob == p, f"{kind} noise has {noise.nqubits} qubits and probability {noise.prob}")
        chans.append(noise.to_krauschannel())
        other = NOISES[kind](0.125)
        check(noise.prob == p, "probability shared between noises")
        other.prob = p
        chans.append(other.to_krauschannel())
    for ch in chans:
        check(ch.nqubit == n, f"{kind} channel acts on {ch.nqubit} qubits")
        ks = family(ch)
        check(len(ch) == len(ks), "len of the channel")
        check(np.allclose(sum(k.conj().T @ k for k in ks), np.eye(2**n)), "channel is not trace preserving")
        check(np.allclose(superop(ks), superop(want), atol=1e-9), lambda: f"{kind} channel of {p} differs from its documented formula:\n{[np.round(k, 4).tolist() for k in ks]}")  # noqa: B023
    info.nt(p not in (0, 1) if not isinstance(p, list) else any(p))


# ----------------------------------------------------------------- Kraus data

@st.composite
def kraus_cases(draw: Any) -> dict[str, Any]:
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    r = draw(st.integers(1, {1: 4, 2: 6, 3: 3}[n]))
    total = draw(st.integers(n, 3))
    return {"n": n, "r": r, "seed": draw(st.integers(0, 2**31)), "sparse": draw(st.booleans()), "coefs": [draw(vecs(1))[0] for _ in range(r)], "total": total,
            "perm": draw(st.permutations(range(total))), "rho": draw(st.integers(0, 2**31)), "rank": draw(st.integers(1, 3)), "form": draw(st.integers(0, 2)),
            "bad": draw(st.sampled_from(["scale", "extra", "missing", "size", "rect", "dim3", "vector", "empty", "many", "zero-size", "ok", "ok"]))}


def random_kraus(n: int, r: int, seed: int, sparse: bool) -> list[np.ndarray]:
    rng = np.random.default_rng(seed)
    d = 2**n
    m = rng.normal(size=(d * r, d)) + 1j * rng.normal(size=(d * r, d))
    if sparse:
        m *= rng.random(size=m.shape) < 0.5
        m[:d] += 0.1 * np.eye(d)
    q, _ = np.linalg.qr(m)
    return [q[i * d : (i + 1) * d] for i in range(r)]


def random_rho(n: int, rank: int, seed: int) -> np.ndarray:
    rng = np.random.default_rng(seed)
    m = rng.normal(size=(2**n, rank)) + 1j * rng.normal(size=(2**n, rank))
    m = m @ m.conj().T
    return m / np.trace(m)


def kraus_oracle(case: Any, info: Info) -> None:
    n, r, bad = case["n"], case["r"], case["bad"]
    ks = random_kraus(n, r, case["seed"], case["sparse"])
    cs = [complex(a, b) for a, b in case["coefs"]]
    cs = [c if abs(c) > 0.1 else 1 for c in cs]
    ops = [k / c for k, c in zip(ks, cs)]
    info.label(bad, f"{n} qubits")
    data = [KrausData(c, o) for c, o in zip(cs, ops)]
    if bad != "ok":
        d = 2**n
        err = {"rect": lambda: KrausData(1, np.ones((d, d + 1))), "dim3": lambda: KrausData(1, np.eye(d + 1 if d > 1 and d + 1 & d else 3)), "vector": lambda: KrausData(1, np.ones(d)), "zero-size": lambda: KrausData(1, np.zeros((0, 0))),
               "empty": lambda: KrausChannel([]), "scale": lambda: KrausChannel([KrausData(cs[0] * 1.05, ops[0]), *data[1:]]), "extra": lambda: KrausChannel([*data, KrausData(0.2, np.eye(d))]),
               "missing": lambda: KrausChannel([KrausData(0, ops[0]), *data[1:]]), "size": lambda: KrausChannel([*data, KrausData(0, np.eye(2 * d))]), "many": lambda: KrausChannel([*data, *(KrausData(0, np.eye(d)) for _ in range(4**n + 1 - r))])}[bad]
        if bad == "missing" and np.linalg.norm(ks[0]) < 1e-2:
            return
        if bad == "scale" and np.linalg.norm(ks[0]) < 1e-2:
            return
        check(raises(ValueError, err) is not None, f"invalid Kraus data ({bad}) accepted")
        info.nt()
        return
    src = iter(data) if case["form"] == 1 else tuple(data) if case["form"] == 2 else data
    ch = KrausChannel(src)
    if case["form"] == 0:
        data.append(KrausData(1, np.eye(2**n)))
    for o in ops:
        o *= 2
    check(len(ch) == r and len(list(ch)) == r and ch.nqubit == n, f"{len(ch)} operators on {ch.nqubit} qubits")
    for i in range(r):
        check(np.allclose(ch[i].coef * ch[i].operator, ks[i]) and ch[i].nqubit == n, f"operator {i} of the channel")
        check(np.allclose(ch[i - r].coef * ch[i - r].operator, ks[i]), f"operator {i - r} of the channel")
    check([k.coef for k in ch[: r // 2 + 1]] == cs[: r // 2 + 1], "slice of the channel")
    # action on a density matrix
    total = case["total"]
    pos = list(case["perm"])[:n]
    rho = random_rho(total, case["rank"], case["rho"])
    dm = DensityMatrix(rho.copy())
    full = [ref.embed(k, pos, total) for k in ks]
    want = sum(f @ rho @ f.conj().T for f in full)
    dm.apply_channel(ch, pos if case["form"] else tuple(pos))
    check(np.allclose(dm.rho, want, atol=1e-8), lambda: f"channel applied to the qubits {pos} of {total} gives\n{np.round(dm.rho, 4).tolist()}\ninstead of\n{np.round(want, 4).tolist()}")
    dm2 = DensityMatrix(rho.copy())
    dm2.apply_noise(pos, Wrapped(n, ch))
    check(np.allclose(dm2.rho, want, atol=1e-8), "apply_noise of a density matrix")
    be = DensityMatrixBackend(branch_selector=ConstBranchSelector(0))
    nodes = [7, 0, 4][:total]
    be.add_nodes(nodes, rho.copy())
    be.apply_noise(ApplyNoise(noise=Wrapped(n, ch), nodes=[nodes[i] for i in pos]))
    check(np.allclose(be.state.rho, want, atol=1e-8) and list(be.node_index) == nodes, "apply_noise of the density-matrix backend")
    info.nt(r > 1)


@dataclass
class Wrapped(Noise):
    """User-defined noise given by its channel."""

    n: int
    channel: KrausChannel

    @property
    def nqubits(self) -> int:
        return self.n

    def to_krauschannel(self) -> KrausChannel:
        return self.channel


# ------------------------------------------------------------- noisy patterns

FIELDS = ["prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob"]


@st.composite
def params(draw: Any, readout: bool = True) -> dict[str, float]:
    out = {}
    for f in FIELDS:
        if draw(st.booleans()):
            out[f] = float(draw(st.integers(0, 1))) if f == "measure_error_prob" else draw(probs)
    return out


def models(depth: int = 2) -> Any:
    leaf = st.one_of(
        params().map(lambda p: ["dep", p]),
        params().map(lambda p: ["amp", p]),
        st.just(["none"]),
        st.fixed_dictionaries({"seed": st.integers(0, 2**31), "before": st.lists(st.sampled_from("NEMXZCT"), max_size=3, unique=True), "after": st.lists(st.sampled_from("NEXZCT"), max_size=3, unique=True),
                               "dom": st.sampled_from(["none", "empty", "cmd"]), "flip": st.lists(st.integers(0, 12), max_size=4), "inputs": st.sampled_from([0, 1, 2])}).map(lambda d: ["user", d]),
    )
    return st.one_of(leaf, st.lists(leaf, max_size=3).map(lambda ms: ["comp", ms]), st.lists(st.one_of(leaf, st.lists(leaf, max_size=2).map(lambda ms: ["comp", ms])), min_size=1, max_size=2).map(lambda ms: ["comp", ms]))


def kind_of(cmd: Any) -> str:
    return {CommandKind.N: "N", CommandKind.E: "E", CommandKind.M: "M", CommandKind.X: "X", CommandKind.Z: "Z", CommandKind.C: "C", CommandKind.T: "T"}.get(cmd.kind, "?")


class User(NoiseModel):
    """Noise model of a user: arbitrary channels before and after commands, conditional on the domain of the command."""

    def __init__(self, spec: dict[str, Any]) -> None:
        self.spec = spec

    def domain(self, cmd: Any, k: str) -> Any:
        if self.spec["dom"] == "none":
            return None
        if self.spec["dom"] == "empty":
            return set()
        return set(cmd.domain) if k in "XZ" else set(cmd.s_domain) if k == "M" else None

    def input_nodes(self, nodes: Any, rng: Any = None, *, stacklevel: int = 1) -> list[Any]:
        nodes = list(nodes)
        n = self.spec["inputs"]
        if n == 0 or len(nodes) < n:
            return []
        return [ApplyNoise(noise=Wrapped(n, KrausChannel([KrausData(1, k) for k in user_kraus(self.spec, n, "in")])), nodes=nodes[-n:])]

    def command(self, cmd: Any, rng: Any = None, *, stacklevel: int = 1) -> list[Any]:
        k = kind_of(cmd)
        if k in "?T":
            return [cmd]
        nodes = list(cmd.nodes)[::-1] if k == "E" else [cmd.node]
        out = [cmd]
        mk = lambda when: ApplyNoise(noise=Wrapped(len(nodes), KrausChannel([KrausData(1, x) for x in user_kraus(self.spec, len(nodes), when)])), nodes=nodes, domain=self.domain(cmd, k))  # noqa: E731
        if k in self.spec["before"] and k != "N":
            out.insert(0, mk("before"))
        if k in self.spec["after"]:
            out.append(mk("after"))
        return out

    def confuse_result(self, cmd: Any, result: Any, rng: Any = None, *, stacklevel: int = 1) -> Any:
        return 1 - result if cmd.node in self.spec["flip"] else result


def user_kraus(spec: dict[str, Any], n: int, when: str) -> list[np.ndarray]:
    return random_kraus(n, 2, spec["seed"] + {"in": 0, "before": 1, "after": 2}[when], False)


def build(m: Any) -> NoiseModel:
    if m[0] == "dep":
        return DepolarisingNoiseModel(**m[1])
    if m[0] == "amp":
        return AmplitudeDampingNoiseModel(**m[1])
    if m[0] == "none":
        return NoiselessNoiseModel()
    if m[0] == "user":
        return User(m[1])
    return ComposeNoiseModel([build(x) for x in m[1]])


def noises(m: Any, seq: list[Any]) -> list[Any]:
    """Sequence of commands with the noise of the model inserted; noise is ["noise", Kraus operators, nodes, domain or None]."""
    if m[0] == "none":
        return seq
    if m[0] == "comp":
        for x in m[1]:
            seq = noises(x, seq)
        return seq
    out = []
    for c in seq:
        if c[0] in ("noise", "T"):
            out.append(c)
            continue
        if m[0] == "user":
            s = m[1]
            nodes = [c[2], c[1]] if c[0] == "E" else [c[1]]
            dom = None if s["dom"] == "none" else [] if s["dom"] == "empty" else list(c[2]) if c[0] in "XZ" else list(c[3]) if c[0] == "M" else None
            if c[0] in s["before"] and c[0] != "N":
                out.append(["noise", user_kraus(s, len(nodes), "before"), nodes, dom])
            out.append(c)
            if c[0] in s["after"]:
                out.append(["noise", user_kraus(s, len(nodes), "after"), nodes, dom])
            continue
        kind = "depolarising" if m[0] == "dep" else "damping"
        g = lambda f: m[1].get(f, 0.0)  # noqa: E731, B023
        if c[0] == "N":
            out += [c, ["noise", operators(kind, g("prepare_error_prob")), [c[1]], None]]
        elif c[0] == "E":
            out += [c, ["noise", operators(kind + "2", g("entanglement_error_prob")), [c[1], c[2]], None]]
        elif c[0] == "M":
            out += [["noise", operators(kind, g("measure_channel_prob")), [c[1]], None], c]
        elif c[0] in ("X", "Z"):
            out += [c, ["noise", operators(kind, g("x_error_prob" if c[0] == "X" else "z_error_prob")), [c[1]], list(c[2])]]
        else:
            out.append(c)
    return out


def input_noises(m: Any, nodes: list[int]) -> list[Any]:
    if m[0] == "none":
        return []
    if m[0] == "comp":
        return [x for y in m[1] for x in input_noises(y, nodes)]
    if m[0] == "user":
        n = m[1]["inputs"]
        return [["noise", user_kraus(m[1], n, "in"), nodes[-n:], None]] if n and len(nodes) >= n else []
    kind = "depolarising" if m[0] == "dep" else "damping"
    return [["noise", operators(kind, m[1].get("prepare_error_prob", 0.0)), [v], None] for v in nodes]


def flips(m: Any, node: int) -> int:
    if m[0] == "none":
        return 0
    if m[0] == "comp":
        return sum(flips(x, node) for x in m[1]) % 2
    if m[0] == "user":
        return int(node in m[1]["flip"])
    return int(m[1].get("measure_error_prob", 0.0))


def shrink_columns(r: ref.Reg) -> None:
    n = len(r.nodes)
    c = r.t.shape[-1]
    if c > 2**n:
        u, s, _ = np.linalg.svd(r.t.reshape(2**n, c), full_matrices=False)
        r.t = (u * s).reshape((2,) * n + (len(s),))


def apply_kraus(r: ref.Reg, ks: list[np.ndarray], nodes: list[int]) -> None:
    parts = []
    for k in ks:
        if np.abs(k).max() < 1e-12:
            continue
        c = r.copy()
        c.op(nodes, k)
        parts.append(c.t)
    r.t = np.concatenate(parts, axis=-1)
    shrink_columns(r)


def reference(d: Any, m: Any, rho: np.ndarray, taken: dict[int, int], with_inputs: bool) -> tuple[np.ndarray, list[Any], dict[int, int]]:
    w, v = np.linalg.eigh(rho)
    r = ref.Reg()
    r.nodes = list(d["in"])
    keep = w > 1e-12
    r.t = (v[:, keep] * np.sqrt(w[keep])).reshape((2,) * len(d["in"]) + (int(keep.sum()),))
    log: list[Any] = []
    rec: dict[int, int] = {}
    for c in (input_noises(m, d["in"]) if with_inputs else []) + noises(m, d["cmds"]):
        if c[0] == "noise":
            if c[3] is None or ref.parity(c[3], rec):
                apply_kraus(r, c[1], c[2])
        elif c[0] == "M":
            f = ref.flip(ref.meas_vector(c[2]), ref.parity(c[3], rec), ref.parity(c[4], rec))
            total = r.norm2()
            r0 = r.copy()
            r0.bra(c[1], ref.ket_of(f))
            log.append((c[1], r0.norm2() / total))
            o = taken[c[1]]
            r.bra(c[1], ref.ket_of(f if o == 0 else -f))
            shrink_columns(r)
            rec[c[1]] = (o + flips(m, c[1])) % 2
        elif c[0] != "T":
            ref.step(r, c, rec)
    t = r.matrix(d["out"])
    out = t @ t.conj().T
    return out / np.trace(out), log, rec


@st.composite
def noisy_cases(draw: Any) -> dict[str, Any]:
    if draw(st.booleans()):
        pat = draw(gen.soups(max_active=4, max_total=6, max_steps=16, max_inputs=2))
    else:
        pat = draw(gen.det_patterns(max_meas=3, max_out=2))
    n = len(pat["in"])
    if draw(st.integers(0, 3)) == 0:
        cmds = list(pat["cmds"])
        cmds.insert(draw(st.integers(0, len(cmds))), ["T"])
        pat = {**pat, "cmds": cmds}
    return {"pat": pat, "model": draw(models()), "seed": draw(st.integers(0, 2**31)), "rank": draw(st.integers(1, 3)), "form": draw(st.sampled_from(["default", "vector", "matrix", "prepared"])),
            "api": draw(st.integers(0, 2)), "picks": draw(gen.picks()), "n": n}


def model_labels(m: Any) -> set[str]:
    return {m[0]} | ({y for x in m[1] for y in model_labels(x)} if m[0] == "comp" else set())


def noisy_oracle(case: Any, info: Info) -> None:
    d, m = case["pat"], case["model"]
    p = conv.pattern(d)
    n = len(d["in"])
    rho = random_rho(n, 1 if case["form"] == "vector" else case["rank"], case["seed"])
    kw: dict[str, Any] = {}
    if case["form"] == "default":
        rho = np.full((2**n, 2**n), 2.0**-n, dtype=complex)
    elif case["form"] == "vector":
        w, v = np.linalg.eigh(rho)
        kw["input_state"] = v[:, -1].copy()
    elif case["form"] == "matrix":
        kw["input_state"] = rho.copy()
    else:
        kw["input_state"] = None
    before = conv.freeze(p)
    ms = ref.measured(d["cmds"])
    rng = np.random.default_rng(case["seed"])
    for want in ref.branch_list(ms, 1, case["picks"]):
        sel = Script(want)
        mm = DefaultMeasureMethod()
        model = build(m)
        be: Any = "densitymatrix"
        extra: dict[str, Any] = {"branch_selector": sel}
        if case["form"] == "prepared" or case["api"] == 1:
            be = DensityMatrixBackend(branch_selector=sel)
            extra = {}
            if case["form"] == "prepared":
                be.add_nodes(list(d["in"]), rho.copy())
        if case["api"] == 2:
            sim = PatternSimulator(p, be, noise_model=model, measure_method=mm, **extra)
            sim.run(**kw, rng=rng)
            state = sim.backend.state
        else:
            state = p.simulate(be, noise_model=model, measure_method=mm, rng=rng, **kw, **extra)
        taken = sel.outcomes
        final, log, rec = reference(d, m, rho, taken, case["form"] != "prepared")
        info.extra += 1
        check([x[0] for x in sel.log] == ms, lambda: f"measured {[x[0] for x in sel.log]} instead of {ms}")
        for (q, p0, _), (_, e0) in zip(sel.log, log):
            check(abs(p0 - e0) < 1e-6, lambda: f"probability of 0 for node {q} is {e0}, the simulator offers {p0} (branch {taken})")  # noqa: B023
        check(dict(mm.results) == rec, lambda: f"recorded results {dict(mm.results)} instead of {rec}")  # noqa: B023
        check(state.rho.shape == final.shape and np.allclose(state.rho, final, atol=1e-6), lambda: f"branch {taken}: density matrix\n{np.round(state.rho, 4).tolist()}\nreference\n{np.round(final, 4).tolist()}")  # noqa: B023
    check(conv.freeze(p) == before, "simulation changed the pattern")
    placed = [x for x in noises(m, d["cmds"]) if x[0] == "noise" and np.abs(np.abs(np.trace(x[1][0]) if x[1] else 0) - len(x[1][0])) > 1e-9]
    info.nt(bool(placed) and len(d["cmds"]) > 0)
    info.label(*model_labels(m), "form " + case["form"])
    if any(flips(m, q) for q in ms):
        info.label("readout flips")


# ---------------------------------------------------------------- zero noise

@st.composite
def zero_cases(draw: Any) -> dict[str, Any]:
    pat = draw(gen.soups(max_active=4, max_total=6, max_steps=18, max_inputs=2))
    return {"pat": pat, "amps": draw(vecs(len(pat["in"]))), "picks": draw(gen.picks()), "model": draw(st.sampled_from(["dep", "amp", "none", "comp", "empty"]))}


def zero_oracle(case: Any, info: Info) -> None:
    d = case["pat"]
    p = conv.pattern(d)
    model = {"dep": DepolarisingNoiseModel, "amp": AmplitudeDampingNoiseModel, "none": NoiselessNoiseModel, "comp": lambda: ComposeNoiseModel([AmplitudeDampingNoiseModel(), DepolarisingNoiseModel(0, 0.0)]), "empty": lambda: ComposeNoiseModel([])}[case["model"]]()
    ms = ref.measured(d["cmds"])
    want = ref.branch_list(ms, 0, case["picks"])[0]
    sel = Script(want)
    rng = np.random.default_rng(0)
    noisy = p.simulate("densitymatrix", noise_model=model, input_state=vec(case["amps"]), branch_selector=sel, rng=rng)
    clean = quiet(p.simulate, "densitymatrix", input_state=vec(case["amps"]), branch_selector=Script(sel.outcomes, eps=-1))
    pure = p.simulate(input_state=vec(case["amps"]), branch_selector=Script(sel.outcomes, eps=-1)).flatten().reshape(-1)
    check(np.allclose(noisy.rho, clean.rho, atol=1e-7), "zero noise differs from noiseless simulation")
    check(np.allclose(noisy.rho, np.outer(pure, pure.conj()), atol=1e-6), "zero noise differs from state-vector simulation")
    info.nt(len(ms) > 0)
    info.label(case["model"])


# ------------------------------------------------------------ readout errors

@st.composite
def readout_cases(draw: Any) -> dict[str, Any]:
    return {"p": [draw(probs) for _ in range(draw(st.integers(1, 3)))], "kinds": [draw(st.sampled_from(["dep", "amp"])) for _ in range(3)], "seed": draw(st.integers(0, 2**31)), "outcome": draw(st.integers(0, 1)), "nodes": draw(st.integers(1, 3))}


def readout_oracle(case: Any, info: Info) -> None:
    """The recorded result is flipped with the stated probability, independently at every measurement and of the state."""
    ms = [build([k, {"measure_error_prob": q}]) for k, q in zip(case["kinds"], case["p"])]
    model = ms[0] if len(ms) == 1 else ComposeNoiseModel(ms)
    flip = 0.0
    for q in case["p"]:
        flip = flip * (1 - q) + (1 - flip) * q
    rng = np.random.default_rng(case["seed"])
    n = 1500
    cmd = command.M(3, Measurement.XY(0.1))
    got = [model.confuse_result(cmd, case["outcome"], rng=rng) for _ in range(n)]
    check(all(x in (0, 1) for x in got), "results that are neither 0 nor 1")
    c = sum(x != case["outcome"] for x in got)
    tol = 6 * math.sqrt(n * flip * (1 - flip)) + (3 if 1e-12 < flip < 1 - 1e-12 else 0)
    check(abs(c - n * flip) <= tol, lambda: f"{c} of {n} results flipped with probability {flip}")
    rng2 = np.random.default_rng(case["seed"])
    check(got == [model.confuse_result(cmd, case["outcome"], rng=rng2) for _ in range(n)], "same seed, other results")
    # in a simulation: deterministic measurements, then recorded results
    k = case["nodes"]
    cmds = [["N", i, "ONE" if case["outcome"] else "ZERO"] for i in range(k)] + [["M", i, ["P", "Z", 1], [], []] for i in range(k)]
    pat = conv.pattern({"in": [], "cmds": [*cmds, ["N", k, "ZERO"], ["X", k, list(range(k))]], "out": [k]})
    runs = 100
    bad = 0
    for _ in range(runs):
        mm = DefaultMeasureMethod()
        state = pat.simulate("densitymatrix", noise_model=model, measure_method=mm, rng=rng)
        rec = [mm.results[i] for i in range(k)]
        bad += sum(x != case["outcome"] for x in rec)
        check(np.allclose(np.diag(state.rho), [1 - sum(rec) % 2, sum(rec) % 2]), lambda: f"correction after the recorded results {rec}: {np.diag(state.rho)}")  # noqa: B023
    tol = 6 * math.sqrt(runs * k * flip * (1 - flip)) + (3 if 1e-12 < flip < 1 - 1e-12 else 0)
    check(abs(bad - runs * k * flip) <= tol, lambda: f"{bad} of {runs * k} recorded results flipped with probability {flip}")
    info.extra += n + runs
    info.nt(0 < flip < 1)
    info.label(f"{len(ms)} models")


def rejections_oracle(case: Any, info: Info) -> None:
    pat = Pattern(input_nodes=[0], cmds=[command.N(1), command.E((0, 1)), command.M(0, Measurement.XY(0.3)), command.X(1, {0})], output_nodes=[1])
    signal = Pattern(input_nodes=[0], cmds=[command.N(1), command.E((0, 1)), command.M(0, Measurement.XY(0.3)), command.S(0, set()), command.X(1, {0})], output_nodes=[1])
    what = case["what"]
    rng = np.random.default_rng(1)
    model = DepolarisingNoiseModel(0.1, 0.1, 0.1, 0.1)
    fns: dict[str, tuple[Any, Any]] = {
        "statevector": (ValueError, lambda: pat.simulate("statevector", noise_model=model, rng=rng)),
        "tensornetwork": (ValueError, lambda: pat.simulate("tensornetwork", noise_model=model, rng=rng)),
        "state-vector backend": (NoiseNotSupportedError, lambda: pat.simulate(StatevectorBackend(), noise_model=model, rng=rng)),
        "signal depolarising": (ValueError, lambda: signal.simulate("densitymatrix", noise_model=model, rng=rng)),
        "signal damping": (ValueError, lambda: signal.simulate("densitymatrix", noise_model=AmplitudeDampingNoiseModel(), rng=rng)),
        "signal noiseless": (ValueError, lambda: signal.simulate("densitymatrix", noise_model=NoiselessNoiseModel(), rng=rng)),
        "channel type": (TypeError, lambda: DensityMatrix(np.eye(2) / 2).apply_channel([np.eye(2)], [0])),  # type: ignore[arg-type]
        "channel width": (ValueError, lambda: DensityMatrix(np.eye(2) / 2).apply_channel(two_qubit_depolarising_channel(0.1), [0])),
        "qubit twice": (ValueError, lambda: DensityMatrix(np.eye(4) / 4).apply_channel(two_qubit_depolarising_channel(0.1), [0, 0])),
        "qubit out of range": ((ValueError, IndexError), lambda: DensityMatrix(np.eye(4) / 4).apply_channel(depolarising_channel(0.1), [2])),
    }
    exc, fn = fns[what]
    check(raises(exc, lambda: quiet(fn)) is not None, f"{what}: not rejected")
    info.nt()
    info.label(what)


REJECTIONS = ["statevector", "tensornetwork", "state-vector backend", "signal depolarising", "signal damping", "signal noiseless", "channel type", "channel width", "qubit twice", "qubit out of range"]

SUBS = [
    Sub("channels", channel_cases, channels_oracle, 3000, 60000, shards=4, rule="probability neither 0 nor 1, or an invalid one"),
    Sub("kraus", kraus_cases, kraus_oracle, 3000, 60000, shards=8, rule="several operators, or invalid data"),
    Sub("noisy", noisy_cases, noisy_oracle, 3000, 60000, shards=8, rule="a channel other than the identity is inserted"),
    Sub("zero", zero_cases, zero_oracle, 800, 16000, shards=4, rule="at least one measurement"),
    Sub("readout", readout_cases, readout_oracle, 60, 1500, shards=4, rule="flip probability strictly between 0 and 1"),
    Sub("rejections", lambda: st.sampled_from([{"what": w} for w in REJECTIONS]), rejections_oracle, 10, 10, shards=1, enumerate=lambda tier: [{"what": w} for w in REJECTIONS]),
]
