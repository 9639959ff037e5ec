"""C36: every accepted form of state data against the dense state it denotes.

Vectors and matrices are generated first and then dressed in every accepted form (single states, sequences, iterators,
user-defined states, amplitude sequences of every numeric type, matrices of every layout and type, state objects with
spare capacity), with and without explicit qubit counts and capacities, through the constructors, `add_nodes` and the
backends.  The result must be exactly the denoted state and independent of the caller's data; invalid data of many
kinds must raise ValueError or TypeError.
"""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.states import BasicStates, State
from vh import conv, gen, ref
from vh.core import Info, Sub, check
from vh.util import mat, mats, raises, vec, vecs


class Own(State):
    """A user-defined single-qubit state, as the documentation invites."""

    def __init__(self, v: np.ndarray) -> None:
        self.v = v

    def to_statevector_numpy(self) -> np.ndarray:
        return self.v


def state_strat():  # noqa: ANN201
    return st.one_of(st.sampled_from(gen.STATE_NAMES), st.tuples(st.just("P"), st.sampled_from(gen.PLANES), gen.angles()).map(list),
                     vecs(1).map(lambda v: ["own", v]))


def dense(s):  # noqa: ANN001, ANN201
    return vec(s[1]) if isinstance(s, list) and s[0] == "own" else ref.state_vec(s)


def obj(s):  # noqa: ANN001, ANN201
    return Own(vec(s[1])) if isinstance(s, list) and s[0] == "own" else conv.state(s)


def kron(vs):  # noqa: ANN001, ANN201
    out = np.ones(1, dtype=complex)
    for v in vs:
        out = np.kron(out, v)
    return out


SEQ = ["list", "tuple", "iter", "gen", "objarray"]
AMP = ["list", "tuple", "iter", "gen", "array", "readonly", "strided", "np64", "np32", "mixed", "sv", "svcap", "svproj"]
BASIS = ["intlist", "intarray", "floatlist", "boolarray", "int8"]
MAT = ["array", "fortran", "strided", "readonly", "lists", "tuples", "iter", "rowiter", "dm"]


def seq(xs, how):  # noqa: ANN001, ANN201
    if how == "list":
        return list(xs)
    if how == "tuple":
        return tuple(xs)
    if how == "iter":
        return iter(list(xs))
    if how == "gen":
        return (x for x in list(xs))
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def amps(v, how):  # noqa: ANN001, ANN201
    if how in ("list", "tuple", "iter", "gen"):
        return seq([complex(z) for z in v], how)
    if how == "array":
        return v.copy()
    if how == "readonly":
        w = v.copy()
        w.flags.writeable = False
        return w
    if how == "strided":
        w = np.zeros(2 * len(v), dtype=complex)
        w[::2] = v
        return w[::2]
    if how == "np64":
        return list(v)
    if how == "np32":
        return v.astype(np.complex64)
    if how == "mixed":
        return [z.real if z.imag == 0 else complex(z) for z in (complex(z) for z in v)]
    if how == "sv":
        return Statevector(v.copy())
    if how == "svcap":
        return Statevector(v.copy(), max_qubits=int(len(v)).bit_length() + 1)
    if how == "svproj":
        s = Statevector(np.kron(v, [0.6, 0.8j]))
        s.project_qubit(np.array([[0.36, -0.48j], [0.48j, 0.64]]), int(len(v)).bit_length() - 1)
        return s
    raise ValueError(how)


def basis(i, n, how):  # noqa: ANN001, ANN201
    v = [0] * 2**n
    v[i] = 1
    if how == "intlist":
        return v
    if how == "floatlist":
        return [float(x) for x in v]
    return np.array(v, dtype={"intarray": int, "boolarray": np.uint8, "int8": np.int8}[how])


def matrix(r, how):  # noqa: ANN001, ANN201
    if how == "array":
        return r.copy()
    if how == "fortran":
        return np.asfortranarray(r)
    if how == "readonly":
        w = r.copy()
        w.flags.writeable = False
        return w
    if how == "strided":
        w = np.zeros((2 * len(r), 2 * len(r)), dtype=complex)
        w[::2, ::2] = r
        return w[::2, ::2]
    if how == "lists":
        return r.tolist()
    if how == "tuples":
        return tuple(tuple(x) for x in r)
    if how == "iter":
        return iter(r.tolist())
    if how == "rowiter":
        return [iter(x) for x in r.tolist()]
    if how == "c64":
        return r.astype(np.complex64)
    return DensityMatrix(r.copy())


@st.composite
def strat_accept(draw):  # noqa: ANN001, ANN201
    kind = draw(st.sampled_from(["single", "states", "states", "amps", "amps", "basis", "matrix", "matrix", "none", "empty"]))
    c = {"kind": kind, "nq": draw(st.booleans()), "cap": draw(st.one_of(st.none(), st.integers(0, 3))), "via": draw(st.sampled_from(["ctor", "ctor", "nodes", "backend"])),
         "pre": draw(st.integers(0, 1))}
    if kind == "single":
        c["s"] = draw(state_strat())
        c["n"] = draw(st.integers(0, 4))
    elif kind == "states":
        c["l"] = draw(st.lists(state_strat(), min_size=1, max_size=4))
        c["how"] = draw(st.sampled_from(SEQ))
    elif kind == "amps":
        c["v"] = draw(st.integers(0, 4).flatmap(vecs))
        c["how"] = draw(st.sampled_from(AMP))
    elif kind == "basis":
        c["n"] = draw(st.integers(0, 3))
        c["i"] = draw(st.integers(0, 7))
        c["how"] = draw(st.sampled_from(BASIS))
    elif kind == "matrix":
        n = draw(st.integers(0, 4 if draw(st.integers(0, 9)) == 0 else 3))
        k = draw(st.integers(1, 3))
        c["parts"] = [draw(vecs(n)) for _ in range(k)]
        c["w"] = draw(st.lists(st.integers(1, 9), min_size=k, max_size=k))
        c["how"] = draw(st.sampled_from(MAT))
    elif kind == "empty":
        c["how"] = draw(st.sampled_from(["list", "tuple", "iter", "array"]))
    return c


def build(case):  # noqa: ANN001, ANN201
    """(function making fresh data, dense vector or None, density matrix, number of qubits)."""
    k = case["kind"]
    if k == "none":
        v = ref.STATES["PLUS"]
        return None, v, 1
    if k == "single":
        n = case["n"] if case["nq"] or case["via"] != "ctor" else 1
        return (lambda: obj(case["s"])), kron([dense(case["s"])] * n), n
    if k == "states":
        return (lambda: seq([obj(s) for s in case["l"]], case["how"])), kron([dense(s) for s in case["l"]]), len(case["l"])
    if k == "amps":
        v = vec(case["v"])
        return (lambda: amps(v, case["how"])), v, int(len(v)).bit_length() - 1
    if k == "basis":
        v = np.zeros(2 ** case["n"], dtype=complex)
        v[case["i"] % len(v)] = 1
        return (lambda: basis(case["i"] % len(v), case["n"], case["how"])), v, case["n"]
    if k == "empty":
        return (lambda: np.array([]) if case["how"] == "array" else seq([], case["how"])), np.ones(1, dtype=complex), 0
    vs = [vec(x) for x in case["parts"]]
    w = np.array(case["w"]) / sum(case["w"])
    r = sum(a * np.outer(x, x.conj()) for a, x in zip(w, vs))
    return (lambda: matrix(r, case["how"])), r, int(r.shape[0]).bit_length() - 1


def oracle_accept(case, info: Info) -> None:  # noqa: ANN001, C901, PLR0912
    fn, dat, n = build(case)
    how = case.get("how", "")
    tol = 1e-6 if how in ("np32", "c64") else 1e-12 if how != "svproj" else 1e-9
    is_mat = dat.ndim == 2
    rho = dat if is_mat else np.outer(dat, dat.conj())
    what = f"{case['kind']} {how} ({n} qubits) via {case['via']}"
    pre = kron([[0.6, 0.8j]] * case["pre"])

    def run(cls, backend):  # noqa: ANN001, ANN202
        data = [] if fn is None else [fn()]
        if case["via"] == "ctor" or fn is None:
            kw = {"nqubit": n} if case["nq"] or case["kind"] == "single" else {}
            if cls is Statevector and case["cap"] is not None:
                kw["max_qubits"] = n + case["cap"]
            return cls(*data, **kw), data, np.ones(1)
        if case["via"] == "nodes":
            s = cls(pre)
            s.add_nodes(n, data[0])
            return s, data, pre
        be = backend()
        if case["pre"]:
            be.add_nodes([7], pre)
        be.add_nodes(list(range(20, 20 + n)), data[0])
        check(list(be.node_index) == [7] * case["pre"] + list(range(20, 20 + n)), f"{what}: nodes {list(be.node_index)}")
        return be.state, data, pre

    if not is_mat:
        sv, data, p = run(Statevector, StatevectorBackend)
        want = np.kron(p, dat)
        got = np.asarray(sv.flatten())
        check(sv.nqubit == int(len(want)).bit_length() - 1 and got.shape == want.shape, lambda: f"{what}: state vector of {sv.nqubit} qubits and shape {got.shape}")
        check(got.dtype == np.complex128, f"{what}: dtype {got.dtype}")
        check(np.allclose(got, want, atol=tol), lambda: f"{what}: state vector {np.round(got, 5).tolist()}, data denote {np.round(want, 5).tolist()}")
        if case["cap"] is not None and case["via"] == "ctor":
            check(sv.max_qubits == n + case["cap"], f"{what}: capacity {sv.max_qubits} instead of {n + case['cap']}")
        untouched(sv, data, what, dat)
    dm, data, p = run(DensityMatrix, DensityMatrixBackend)
    want = np.kron(np.outer(p, np.conj(p)), rho)
    got = np.asarray(dm.rho)
    check(got.shape == want.shape and dm.nqubit == int(len(want)).bit_length() - 1, lambda: f"{what}: density matrix of shape {got.shape} instead of {want.shape}")
    check(np.allclose(got, want, atol=tol), lambda: f"{what}: density matrix\n{np.round(got, 5).tolist()}\ndata denote\n{np.round(want, 5).tolist()}")
    untouched(dm, data, what, dat)
    info.label(case["kind"] + (" " + how if how else ""), case["via"])
    info.nt(n >= 1)


def untouched(state, data, what, dat) -> None:  # noqa: ANN001
    """Working on the state must not change the caller's data, nor the other way round."""
    if not data or isinstance(data[0], State) or not isinstance(data[0], (np.ndarray, list, tuple, Statevector, DensityMatrix)):
        return
    d = data[0]
    plain = d if isinstance(d, (np.ndarray, list, tuple)) else d.rho if isinstance(d, DensityMatrix) else d.flatten()
    if len(plain) == 0 or isinstance(plain[0], State) or (isinstance(plain, list) and hasattr(plain[0], "__next__")):
        return
    before = np.array(plain)
    if state.nqubit:
        state.evolve_single(np.array([[0, 1], [1j, 0]]), state.nqubit - 1)
        state.evolve_single(np.array([[0.6, 0.8], [0.8, -0.6]]), 0)
        state.add_nodes(1, BasicStates.ONE)
    plain = d if isinstance(d, (np.ndarray, list, tuple)) else d.rho if isinstance(d, DensityMatrix) else d.flatten()
    check(np.array_equal(before, np.array(plain)), f"{what}: working on the state changed the data it was made from")
    if isinstance(d, np.ndarray) and d.flags.writeable and d.dtype != object:
        state2 = type(state)(d)
        keep = np.array(state2.flatten())
        d *= 0
        check(np.array_equal(keep, np.asarray(state2.flatten())), f"{what}: changing the data afterwards changed the state")
    elif isinstance(d, (Statevector, DensityMatrix)) and d.nqubit:
        state2 = type(state)(d)
        keep = np.array(state2.flatten())
        d.evolve_single(np.array([[0, 1], [1j, 0]]), 0)
        check(np.array_equal(keep, np.asarray(state2.flatten())), f"{what}: changing the given state object afterwards changed the state")


# ---------------------------------------------------------------- rejected data

REJ = ["notpow2", "norm", "nan", "wrongn", "wrongn_states", "wrongn_sv", "negative", "mixed", "mixed2", "string", "none", "number", "nested_sv",
       "empty_n", "smallcap", "smallcap_sv", "negcap", "sv_of_dm",
       "m_rect", "m_pow2", "m_trace", "m_herm", "m_psd", "m_wrongn", "m_ragged", "m_mixed", "dm_wrongn", "m_nan"]


@st.composite
def strat_reject(draw):  # noqa: ANN001, ANN201
    return {"kind": draw(st.sampled_from(REJ)), "n": draw(st.integers(0, 3)), "v": draw(vecs(2)), "m": draw(mats(2)), "a": draw(st.integers(0, 9)),
            "eps": draw(st.sampled_from([1e-3, 0.02, 0.3, 1.0, 5.0])), "via": draw(st.sampled_from(["ctor", "nodes"]))}


def bad_data(case):  # noqa: ANN001, ANN201, C901, PLR0911, PLR0912
    """(data, keyword arguments, classes that must reject it)."""
    k, n, a, eps = case["kind"], case["n"], case["a"], case["eps"]
    v = vec(case["v"])
    both = (Statevector, DensityMatrix)
    unif = lambda d: [1 / math.sqrt(d)] * d  # noqa: E731
    if k == "notpow2":
        d = [3, 5, 6, 7, 9, 12][a % 6]
        return unif(d), {}, both
    if k == "norm":
        return (v * (1 + eps) if a % 2 else v * (1 - min(eps, 1))), {}, both
    if k == "nan":
        w = v.copy()
        w[a % 4] = [complex("nan"), complex("inf")][a % 2]
        return w, {}, both
    if k == "wrongn":
        return v, {"nqubit": [0, 1, 3, 4][a % 4]}, both
    if k == "wrongn_states":
        return [BasicStates.ZERO] * 2, {"nqubit": [0, 1, 3, 4][a % 4]}, both
    if k == "wrongn_sv":
        return Statevector(v, max_qubits=3), {"nqubit": [0, 1, 3, 4][a % 4]}, both
    if k == "negative":
        return [BasicStates.ZERO, v, [], Statevector(v)][a % 4], {"nqubit": -1 - n}, both
    if k == "mixed":
        return [BasicStates.ZERO, 1.0], {}, both
    if k == "mixed2":
        return [1.0, BasicStates.ZERO], {}, both
    if k == "string":
        return ["ab", ["0", "1"], "zero"][a % 3], {}, both
    if k == "none":
        return [None, [None, None]][a % 2], {}, both
    if k == "number":
        return [1, 0.5, 1j][a % 3], {}, both
    if k == "nested_sv":
        return [[1, 0], [0, 0]], {}, (Statevector,)
    if k == "empty_n":
        return [[], (), np.array([])][a % 3], {"nqubit": 1 + n}, both
    if k == "smallcap":
        return v, {"max_qubits": a % 2}, (Statevector,)
    if k == "smallcap_sv":
        return Statevector(v, max_qubits=4), {"max_qubits": a % 2}, (Statevector,)
    if k == "negcap":
        return [BasicStates.ZERO, Statevector(v), v][a % 3], {"max_qubits": -1 - n}, (Statevector,)
    if k == "sv_of_dm":
        return DensityMatrix(v), {}, (Statevector,)
    m = mat(case["m"])
    r = m @ m.conj().T + np.eye(4)
    r = r / np.trace(r).real
    dm = (DensityMatrix,)
    if k == "m_rect":
        return [np.ones((2, 4)) / 4, r[:2], r[:, :2], r[:1]][a % 4], {}, dm
    if k == "m_pow2":
        d = [3, 5, 6, 7][a % 4]
        return np.eye(d) / d, {}, dm
    if k == "m_trace":
        return (r * (1 + eps) if a % 2 else r * (1 - min(eps, 0.999))), {}, dm
    if k == "m_herm":
        w = r.copy()
        i, j = [(0, 1), (2, 1), (3, 0), (1, 3)][a % 4]
        w[i, j] += 0.05 * eps * (1 if a % 2 else 1j)
        return w, {}, dm
    if k == "m_psd":
        e, u = np.linalg.eigh(r)
        e = np.array([e[0], e[1], e[2], e[3]])
        neg = -0.1 * min(eps, 1)
        e[a % 4] = neg
        e = e / 1.0
        e[(a + 1) % 4] += 1 - e.sum()
        return u @ np.diag(e) @ u.conj().T, {}, dm
    if k == "m_wrongn":
        return r, {"nqubit": [0, 1, 3, 4][a % 4]}, dm
    if k == "m_ragged":
        return [[0.5, 0], [0.5]] if a % 2 else [[1], [0, 0]], {}, dm
    if k == "m_mixed":
        return [[0.5, 0], 0.5] if a % 2 else [[1, 0], BasicStates.ZERO], {}, dm
    if k == "dm_wrongn":
        return DensityMatrix(r), {"nqubit": [0, 1, 3, 4][a % 4]}, dm
    if k == "m_nan":
        w = r.copy()
        w[a % 4, a % 4] = float("nan")
        return w, {}, dm
    raise ValueError(k)


def oracle_reject(case, info: Info) -> None:  # noqa: ANN001
    data, kw, classes = bad_data(case)
    for cls in classes:
        check(raises((ValueError, TypeError, np.linalg.LinAlgError), lambda: cls(data, **kw)) is not None,  # noqa: B023
              lambda: f"{case['kind']}: {cls.__name__}({data!r}, {kw}) accepted")  # noqa: B023
        if "nqubit" in kw and case["via"] == "nodes":
            s = cls(vec(case["v"]))
            keep = np.array(s.flatten())
            check(raises((ValueError, TypeError), lambda: s.add_nodes(kw["nqubit"], data)) is not None,  # noqa: B023
                  lambda: f"{case['kind']}: {cls.__name__}.add_nodes({kw['nqubit']}, {data!r}) accepted")  # noqa: B023
            check(np.array_equal(keep, np.asarray(s.flatten())), f"{case['kind']}: rejected data changed the state")
    info.label(case["kind"])
    info.nt()


# ---------------------------------------------------------------- documented broadcast of a single-qubit vector

def oracle_broadcast(case, info: Info) -> None:  # noqa: ANN001
    v = vec(case["v"])
    n = case["n"]
    cls = DensityMatrix if case["dm"] else Statevector
    s = cls(nqubit=0)
    info.label(cls.__name__)
    try:
        s.add_nodes(n, v)
    except ValueError as e:
        info.finding("broadcast-single-qubit-vector", e)
        return
    want = kron([v] * n)
    got = np.asarray(s.rho if case["dm"] else s.flatten())
    check(got.shape[0] == 2**n and np.allclose(got, np.outer(want, want.conj()) if case["dm"] else want), "a single-qubit state vector is not broadcast to all nodes")
    info.nt()


SUBS = [
    Sub("accept", strat_accept, oracle_accept, 4000, 60000, 4, "at least one qubit"),
    Sub("reject", strat_reject, oracle_reject, 1500, 20000, 2, "every case is invalid data"),
    Sub("broadcast", lambda: st.fixed_dictionaries({"v": vecs(1), "n": st.integers(2, 4), "dm": st.booleans()}), oracle_broadcast, 20, 200, 1, "every case"),
]
