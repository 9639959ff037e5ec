"""C15: histories of state-vector operations against a naive dense reference.

A pool of up to three state vectors is driven through random operation sequences (adding nodes in every form,
entangling, one- and many-qubit operators, swaps, permutations, projections, tensor products, copies, capacity
changes), interleaved with queries (expectation values, fidelities, closeness, dictionary views) and with invalid
requests.  After every step every state of the pool must equal its reference; invalid requests must raise and leave
the pool unchanged.  A second family runs short histories on 14-18 qubits to cross the multi-threading threshold, and
a third drives the state-vector and density-matrix backends by node labels.
"""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from graphix import command
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.states import BasicStates
from vh import conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import Script, mat, ops as operators, psi_of, raises, same_state, unitary_of, vec, vecs

MAXQ = 6


# ---------------------------------------------------------------- reference on plain vectors

def nq(v):  # noqa: ANN001, ANN201
    return int(len(v)).bit_length() - 1


def r_op(v, m, qubits):  # noqa: ANN001, ANN201
    n = nq(v)
    r = ref.Reg.from_vec(list(range(n)), v)
    r.op(list(qubits), m)
    return r.matrix(list(range(n)))[:, 0]


def r_permute(v, perm):  # noqa: ANN001, ANN201
    """Qubit k of the result is qubit perm[k] of v."""
    n = nq(v)
    out = np.zeros_like(v)
    for i in range(2**n):
        bits = [(i >> (n - 1 - q)) & 1 for q in range(n)]
        j = 0
        for k in range(n):
            j = 2 * j + bits[perm[k]]
        out[j] = v[i]
    return out


def r_project(v, p, q):  # noqa: ANN001, ANN201
    """Unnormalised state of the others after the rank-one projector p on q, and its weight."""
    n = nq(v)
    w = r_op(v, p, [q])
    t = w.reshape((2,) * n)
    a, b = np.take(t, 0, axis=q).reshape(-1), np.take(t, 1, axis=q).reshape(-1)
    return (a if np.linalg.norm(a) >= np.linalg.norm(b) else b), float(np.linalg.norm(w) ** 2)


def meas_proj(m, bit):  # noqa: ANN001, ANN201
    b = ref.meas_vector(m)
    return ref.proj_of(-b if bit else b)


def styled(m, style):  # noqa: ANN001, ANN201
    """The same matrix as an array with other memory layout or flags."""
    if style == 1:
        return np.asfortranarray(m)
    if style == 2:
        m = m.copy()
        m.flags.writeable = False
        return m
    if style == 3 and np.allclose(m.imag, 0, atol=0):
        return np.ascontiguousarray(m.real)
    if style == 4:
        big = np.zeros((2 * m.shape[0], 2 * m.shape[1]), dtype=complex)
        big[::2, ::2] = m
        return big[::2, ::2]
    return m.copy()


# ---------------------------------------------------------------- generators

def op1():  # noqa: ANN201
    return st.one_of(
        st.tuples(st.just("w"), st.text("HSXYZ", min_size=0, max_size=3)).map(list),
        st.tuples(st.just("r"), st.sampled_from("XYZ"), gen.GENERIC_ANGLES).map(list),
        st.tuples(st.just("u"), operators(1)).map(list),
    )


def mk1(c):  # noqa: ANN001, ANN201
    if c[0] == "w":
        return ref.word(c[1])
    if c[0] == "r":
        return ref.rot(c[1], c[2] * math.pi)
    if c[0] == "m":
        return mat(c[1])
    return unitary_of(c[1])


NAMED = {"CZ": ref.CZ, "CNOT": ref.CNOT, "SWAP": ref.SWAP, "CCX": ref.CCX}


def opk():  # noqa: ANN201
    return st.one_of(st.sampled_from(sorted(NAMED)).map(lambda s: ["n", s]),
                     st.integers(1, 3).flatmap(lambda k: operators(k).map(lambda m: ["u", m])))


def mkk(c):  # noqa: ANN001, ANN201
    return NAMED[c[1]] if c[0] == "n" else unitary_of(c[1])


def meas():  # noqa: ANN201
    return st.one_of(st.tuples(st.just("B"), st.sampled_from(gen.PLANES), st.one_of(gen.angles(), gen.GENERIC_ANGLES)).map(list),
                     st.tuples(st.just("P"), st.sampled_from("XYZ"), st.sampled_from([1, -1])).map(list))


BAD = ["evolve_single", "shape", "entangle", "swap", "project", "evolve_rep", "evolve_dim", "evolve_out", "permute_len",
       "permute_rep", "add_len", "add_norm", "add_neg", "expect", "expect_shape", "fid", "shrink", "symbolic"]


@st.composite
def strat_history(draw, steps=18, clifford=False):  # noqa: ANN001, ANN201, ARG001
    ops = []
    k = draw(st.integers(1, steps))
    for _ in range(k):
        kind = draw(st.sampled_from(["plus", "plus", "add", "list", "amps", "cz", "cz", "ev1", "ev1", "evk", "swap", "perm", "proj", "proj",
                                     "tensor", "cap", "copy", "nonunit", "q1", "qk", "fid", "dict", "bad", "ptr", "take"]))
        s = draw(st.integers(0, 2))
        a, b, c = draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.integers(0, 5))
        o = [kind, s, a, b, c]
        if kind in ("add", "list"):
            o.append(draw(st.lists(st.one_of(st.sampled_from(gen.STATE_NAMES), st.tuples(st.just("P"), st.sampled_from(gen.PLANES), gen.angles()).map(list)), min_size=1, max_size=3)))
        elif kind == "amps":
            o.append(draw(st.integers(0, 2).flatmap(vecs)))
        elif kind in ("ev1", "q1"):
            o += [draw(op1()), draw(st.integers(0, 4))]
        elif kind in ("evk", "qk"):
            o += [draw(opk()), draw(st.integers(0, 4))]
        elif kind == "nonunit":
            o.append(draw(operators(1)))
        elif kind in ("perm",):
            o.append(draw(st.permutations(list(range(MAXQ)))))
        elif kind == "proj":
            o += [draw(meas()), draw(st.integers(0, 1)), draw(st.integers(0, 4))]
        elif kind == "dict":
            o.append(draw(st.sampled_from([0, 0, 1e-8, 0.1, 0.3])))
        elif kind == "bad":
            o.append(draw(st.sampled_from(BAD)))
        ops.append(o)
    return {"init": draw(st.sampled_from(["empty", "plus", "caps", "two"])), "ops": ops}


def pick(ixs, n, k):  # noqa: ANN001, ANN201
    """k distinct qubits below n chosen by the integers ixs."""
    left = list(range(n))
    return [left.pop(i % len(left)) for i in ixs[:k]]


def dict_view(v, enc, atol, prob):  # noqa: ANN001, ANN201
    n = nq(v)
    out, edge = {}, set()
    for i, z in enumerate(v):
        key = format(i, f"0{n}b") if n else ""
        if enc == "LSB":
            key = key[::-1]
        if abs(abs(z) - atol) < 1e-9 + 1e-6 * atol:
            edge.add(key)
        if abs(z) > atol:
            out[key] = abs(z) ** 2 if prob else z
    return out, edge


class World:
    def __init__(self, init: str) -> None:
        if init == "empty":
            self.sv, self.rf = [Statevector(nqubit=0)], [np.ones(1, dtype=complex)]
        elif init == "plus":
            self.sv, self.rf = [Statevector()], [np.full(2, 2**-0.5, dtype=complex)]
        elif init == "caps":
            self.sv, self.rf = [Statevector(nqubit=0, max_qubits=3)], [np.ones(1, dtype=complex)]
        else:
            self.sv = [Statevector([BasicStates.ZERO, BasicStates.PLUS_I], max_qubits=4)]
            self.rf = [np.array([1, 1j, 0, 0], dtype=complex) / math.sqrt(2)]

    def verify(self, what: str) -> None:
        for i, (s, r) in enumerate(zip(self.sv, self.rf)):
            f = np.asarray(s.flatten())
            if s.nqubit != nq(r) or f.shape != r.shape or s.psi.shape != r.shape:
                raise Fail(f"after {what}: state {i} has {s.nqubit} qubits and {f.shape} amplitudes instead of {nq(r)} qubits")
            if not np.allclose(f, r, atol=1e-7 * max(1.0, float(np.linalg.norm(r)))):
                raise Fail(f"after {what}: state {i} is\n{np.round(f, 5).tolist()}\nreference\n{np.round(r, 5).tolist()}")
            check(s.max_qubits >= s.nqubit, f"after {what}: capacity {s.max_qubits} below {s.nqubit} qubits")

    def unit(self, i: int) -> bool:
        return abs(np.linalg.norm(self.rf[i]) - 1) < 1e-7


def bad_call(kind, s, a, b, c):  # noqa: ANN001, ANN201
    n = s.nqubit
    out = n + a if b % 2 else -1 - a
    sv = s
    if kind == "evolve_single":
        return lambda: sv.evolve_single(ref.word("H"), out)
    if kind == "shape":
        m = [np.eye(4), np.eye(3), np.ones(2), np.ones((2, 2, 2)), np.ones((2, 3)), np.eye(1)][c].astype(complex)
        return None if not n else lambda: sv.evolve_single(m, a % n)
    if kind == "entangle":
        return lambda: sv.entangle((out, a % n) if n and c % 2 else (a % n if n else 0, out))
    if kind == "swap":
        return lambda: sv.swap((out, a % n) if n and c % 2 else (a % n if n else 0, out))
    if kind == "project":
        return lambda: sv.project_qubit(np.diag([1.0, 0]).astype(complex), out)
    if kind == "evolve_rep":
        return None if not n else lambda: sv.evolve(ref.CNOT, [a % n, a % n])
    if kind == "evolve_dim":
        return None if n < 2 else lambda: sv.evolve(np.eye([2, 8, 3, 16][c % 4]).astype(complex), [0, 1])
    if kind == "evolve_out":
        return lambda: sv.evolve(ref.CNOT, [0, n + a] if b % 2 else [n + a, 0])
    if kind == "permute_len":
        return lambda: sv.permute(list(range(n + 1 + a % 2)) if c % 2 or not n else list(range(n - 1)))
    if kind == "permute_rep":
        if n < 1:
            return None
        p = list(range(n))
        p[a % n] = p[(a + 1) % n] if n > 1 else 1
        return lambda: sv.permute(p)
    if kind == "add_len":
        return lambda: sv.add_nodes(1 + a % 2, [BasicStates.ZERO] * (1 + a % 2 + 1 + b % 2))
    if kind == "add_norm":
        return lambda: sv.add_nodes(1, [[1, 1], [0, 0], [0.5, 0.5j], [2, 0]][a % 4])
    if kind == "add_neg":
        return lambda: sv.add_nodes(-1 - a, BasicStates.ZERO)
    if kind == "expect":
        return lambda: sv.expectation_single(np.eye(2, dtype=complex), out)
    if kind == "expect_shape":
        return None if not n else lambda: sv.expectation_single(np.eye(4, dtype=complex), a % n)
    if kind == "fid":
        return lambda: sv.fidelity(Statevector(nqubit=n + 1))
    if kind == "shrink":
        return None if not n else lambda: Statevector(sv, max_qubits=n - 1)
    if kind == "symbolic":
        return None if not n else lambda: sv.evolve_single(np.eye(2).astype(object), a % n)
    raise ValueError(kind)


def oracle_history(case, info: Info) -> None:  # noqa: ANN001, C901, PLR0912, PLR0915
    w = World(case["init"])
    w.verify("initialisation")
    done = set()
    for o in case["ops"]:
        kind, s, ix = o[0], o[1] % len(w.sv), o[2:5]
        sv, v = w.sv[s], w.rf[s]
        n = nq(v)
        what = f"{o[:5]} (state {s}, {n} qubits)"
        if kind == "plus" and n < MAXQ:
            sv.add_nodes(1, BasicStates.PLUS)
            w.rf[s] = np.kron(v, ref.STATES["PLUS"])
        elif kind == "add" and n < MAXQ:
            k = ix[0] % min(3, MAXQ - n + 1)
            sv.add_nodes(k, conv.state(o[5][0]))
            for _ in range(k):
                w.rf[s] = np.kron(w.rf[s], ref.state_vec(o[5][0]))
        elif kind == "list" and n < MAXQ:
            l = o[5][: MAXQ - n]
            data = [conv.state(x) for x in l]
            sv.add_nodes(len(l), tuple(data) if ix[0] % 2 else data)
            for x in l:
                w.rf[s] = np.kron(w.rf[s], ref.state_vec(x))
        elif kind == "amps" and n + nq(o[5]) <= MAXQ:
            a = vec(o[5])
            data = [a.copy(), [complex(z) for z in a], Statevector(a), Statevector(a, max_qubits=nq(a) + 1)][ix[0] % 4]
            sv.add_nodes(nq(a), data)
            w.rf[s] = np.kron(v, a)
        elif kind == "cz" and n >= 2:
            q = pick(ix, n, 2)
            sv.entangle((q[0], q[1]))
            w.rf[s] = r_op(v, ref.CZ, q)
        elif kind == "ev1" and n >= 1:
            m = mk1(o[5])
            mm = styled(m, o[6])
            sv.evolve_single(mm, ix[0] % n)
            check(np.array_equal(mm, m), f"{what}: the operator was modified")
            w.rf[s] = r_op(v, m, [ix[0] % n])
        elif kind == "evk":
            m = mkk(o[5])
            k = nq(m)
            if n < k:
                continue
            q = pick(ix, n, k)
            mm = styled(m, o[6])
            sv.evolve(mm, tuple(q) if ix[0] % 2 else q)
            check(np.array_equal(mm, m), f"{what}: the operator was modified")
            w.rf[s] = r_op(v, m, q)
        elif kind == "swap" and n >= 2:
            q = pick(ix, n, 2)
            sv.swap((q[0], q[1]))
            w.rf[s] = r_op(v, ref.SWAP, q)
        elif kind == "perm":
            p = [x for x in o[5] if x < n]
            sv.permute(tuple(p) if ix[0] % 2 else p)
            w.rf[s] = r_permute(v, p)
        elif kind == "proj" and n >= 1:
            q = ix[0] % n
            pr = meas_proj(o[5], o[6])
            after, p = r_project(v, pr, q)
            if p < 1e-4 * np.linalg.norm(v) ** 2:
                pr = meas_proj(o[5], 1 - o[6])
                after, p = r_project(v, pr, q)
            sv.project_qubit(styled(pr, o[7]), q)
            f = np.asarray(sv.flatten())
            if f.shape != after.shape:
                raise Fail(f"after {what}: {f.shape} amplitudes left")
            check(abs(np.linalg.norm(f) - 1) < 1e-7, lambda: f"after {what}: norm {np.linalg.norm(f)}")
            check(same_state(f, after, 1e-7), lambda: f"after {what}: remaining state\n{np.round(f, 5).tolist()}\nreference\n{np.round(after / np.linalg.norm(after), 5).tolist()}")
            w.rf[s] = f.copy()
        elif kind == "tensor":
            j = ix[0] % len(w.sv)
            if n + nq(w.rf[j]) > MAXQ:
                continue
            sv.tensor(w.sv[j])
            w.rf[s] = np.kron(v, w.rf[j])
            if j == s:
                info.label("self tensor")
        elif kind == "cap":
            before = sv.max_qubits
            sv.ensure_capacity(ix[0] + ix[1] % 4)
            check(sv.max_qubits == max(before, ix[0] + ix[1] % 4), f"{what}: capacity {before} became {sv.max_qubits}")
        elif kind in ("copy", "take"):
            if ix[0] % 3 == 0:
                new = Statevector(sv)
            elif ix[0] % 3 == 1:
                new = Statevector(sv, nqubit=n, max_qubits=n + ix[1] % 3)
                check(new.max_qubits == n + ix[1] % 3, f"{what}: copy with capacity {new.max_qubits}")
            elif w.unit(s):
                new = Statevector(sv.flatten())
            else:
                continue
            if kind == "copy" and len(w.sv) < 3:
                w.sv.append(new)
                w.rf.append(v.copy())
            else:
                w.sv[ix[2] % len(w.sv)] = new
                w.rf[ix[2] % len(w.sv)] = v.copy()
        elif kind == "nonunit" and n >= 1:
            m = mat(o[5]) / 2
            a = r_op(v, m, [ix[0] % n])
            if not 0.05 < np.linalg.norm(a) < 30:
                continue
            sv.evolve_single(m, ix[0] % n)
            w.rf[s] = a
        elif kind == "q1" and n >= 1:
            m = mk1(o[5])
            e = complex(np.vdot(v, r_op(v, m, [ix[0] % n])))
            g = sv.expectation_single(styled(m, o[6]), ix[0] % n)
            check(abs(complex(g) - e) < 1e-7 * max(1, abs(e)), lambda: f"{what}: expectation {g} instead of {e}")
        elif kind == "qk" and w.unit(s):
            m = mkk(o[5])
            k = nq(m)
            if n < k:
                continue
            q = pick(ix, n, k)
            e = complex(np.vdot(v, r_op(v, m, q)))
            g = sv.expectation_value(styled(m, o[6]), q)
            check(abs(complex(g) - e) < 1e-7, lambda: f"{what}: expectation value {g} instead of {e} on qubits {q}")
        elif kind == "fid":
            j = ix[0] % len(w.sv)
            if nq(w.rf[j]) != n:
                continue
            e = abs(np.vdot(v, w.rf[j])) ** 2
            g = sv.fidelity(w.sv[j])
            check(abs(g - e) < 1e-7 * max(1, e), lambda: f"{what}: fidelity {g} instead of {e}")
            for rt, at in ((1e-9, 0.0), (0.3, 0.0), (0.0, 0.5), (1e-6, 1e-3)):
                bound = max(rt * max(e, 1), at)
                r = sv.isclose(w.sv[j], rtol=rt, atol=at)
                if abs(e - 1) < 0.5 * bound:
                    check(r is True, f"{what}: states of fidelity {e} are not close with rtol={rt}, atol={at}")
                elif abs(e - 1) > 1.5 * bound:
                    check(r is False, f"{what}: states of fidelity {e} are close with rtol={rt}, atol={at}")
        elif kind == "dict" and n >= 1:
            for enc, prob in itertools.product(("MSB", "LSB"), (False, True)):
                fn = sv.to_prob_dict if prob else sv.to_dict
                atol = o[5]
                d = fn(encoding=enc, atol=atol) if ix[0] % 2 else fn(enc, atol=atol)
                e, edge = dict_view(v, enc, atol, prob)
                if atol == 0:
                    edge |= {k for k in set(d) ^ set(e) if abs(d.get(k, e.get(k))) < 1e-9}
                check(set(d) - edge == set(e) - edge, lambda: f"{what}: keys {sorted(d)} instead of {sorted(e)} ({enc}, atol={atol})")
                for k, z in d.items():
                    if k in e:
                        check(abs(z - e[k]) < 1e-6 * max(1, abs(e[k])), lambda: f"{what}: value {z} at {k} instead of {e[k]} ({enc})")
        elif kind == "ptr":
            f = sv.flatten()
            keep = np.array(f)
            c2 = Statevector(sv)
            if n:
                c2.evolve_single(ref.word("H"), 0)
                c2.add_nodes(1, BasicStates.PLUS)
            check(np.array_equal(f, keep), f"{what}: working on a copy changed the original")
        elif kind == "bad":
            call = bad_call(o[5], sv, *ix)
            if call is None:
                continue
            e = raises(Exception, call)
            check(e is not None, f"{what}: invalid request {o[5]} accepted")
            info.label("rejected " + o[5])
        else:
            continue
        done.add(kind)
        w.verify(what)
    for k in done:
        info.label(k)
    info.nt(len(done & {"cz", "ev1", "evk", "swap", "perm", "proj", "tensor", "copy"}) >= 3)


# ---------------------------------------------------------------- many qubits

@st.composite
def strat_large(draw):  # noqa: ANN001, ANN201
    n = draw(st.sampled_from([13, 14, 15, 16, 16, 17, 17]))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        kind = draw(st.sampled_from(["ev1", "ev1", "cz", "cz", "swap", "proj", "proj", "zero", "zero", "plus", "q1", "q1", "evk", "perm"]))
        ends = st.one_of(st.just(0), st.sampled_from([0, n - 1, 1, n - 2]), st.integers(0, n - 1))
        o = [kind, draw(ends), draw(ends), draw(ends)]
        if kind in ("ev1", "q1"):
            o.append(draw(op1()))
        elif kind == "proj":
            o += [draw(meas()), draw(st.integers(0, 1))]
        elif kind == "perm":
            o.append(draw(st.integers(1, n - 1)))
        ops.append(o)
    return {"n": n, "seed": draw(st.integers(0, 2**31)), "cap": draw(st.integers(0, 2)), "ops": ops}


def oracle_large(case, info: Info) -> None:  # noqa: ANN001
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    v = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    v /= np.linalg.norm(v)
    sv = Statevector(v, max_qubits=n + case["cap"])
    for o in case["ops"]:
        n = nq(v)
        kind = o[0]
        a = o[1] % n
        b = o[2] % n
        if kind == "ev1":
            m = mk1(o[4])
            sv.evolve_single(m, a)
            v = r_op(v, m, [a])
        elif kind == "cz" and a != b:
            sv.entangle((a, b))
            v = r_op(v, ref.CZ, [a, b])
        elif kind == "swap" and a != b:
            sv.swap((a, b))
            v = r_op(v, ref.SWAP, [a, b])
        elif kind == "evk" and a != b:
            sv.evolve(ref.CNOT, [a, b])
            v = r_op(v, ref.CNOT, [a, b])
        elif kind == "perm":
            p = list(range(n))
            p = p[o[4] % n:] + p[: o[4] % n]
            p[a], p[b] = p[b], p[a]
            sv.permute(p)
            v = np.transpose(v.reshape((2,) * n), p).reshape(-1)
        elif kind == "plus" and n < 18:
            sv.add_nodes(1, BasicStates.PLUS)
            v = np.kron(v, ref.STATES["PLUS"])
        elif kind in ("proj", "zero"):  # zero: the first or the second half of the amplitudes vanishes
            pr = meas_proj(o[4], o[5]) if kind == "proj" else np.diag([b % 2, 1 - b % 2]).astype(complex)
            after, p = r_project(v, pr, a)
            if p < 1e-4:
                pr = np.eye(2) - pr
                after, p = r_project(v, pr, a)
            sv.project_qubit(pr, a)
            f = np.asarray(sv.flatten())
            check(f.shape == after.shape and same_state(f, after, 1e-6), f"projecting qubit {a} of {n} on {o[4:]} gives another state")
            check(abs(np.linalg.norm(f) - 1) < 1e-7, f"norm {np.linalg.norm(f)} after projecting qubit {a} of {n}")
            v = f.copy()
        elif kind == "q1":
            m = mk1(o[4])
            e = complex(np.vdot(v, r_op(v, m, [a])))
            g = complex(sv.expectation_single(m, a))
            check(abs(e - g) < 1e-8, f"expectation of {o[4]} on qubit {a} of {n}: {g} instead of {e}")
        else:
            continue
        check(sv.nqubit == nq(v), f"{sv.nqubit} qubits after {o[:4]}")
        f = np.asarray(sv.flatten())
        check(f.shape == v.shape and np.allclose(f, v, atol=1e-9), lambda: f"state differs after {o} on {n} qubits")
        info.label(kind + (" parallel" if n > 15 else ""))
    info.nt(len(case["ops"]) >= 2)


# ---------------------------------------------------------------- backends by node label

@st.composite
def strat_backend(draw):  # noqa: ANN001, ANN201
    ops = []
    for _ in range(draw(st.integers(3, 18))):
        kind = draw(st.sampled_from(["add", "add", "add", "cz", "cz", "single", "cliff", "meas", "meas", "x", "z", "fin", "bad"]))
        o = [kind, draw(st.integers(0, 9)), draw(st.integers(0, 9))]
        if kind == "add":
            o.append(draw(st.lists(st.one_of(st.sampled_from(gen.STATE_NAMES), st.tuples(st.just("P"), st.sampled_from(gen.PLANES), gen.angles()).map(list)), min_size=1, max_size=2)))
            o.append(draw(st.integers(0, 4)))
        elif kind == "single":
            o.append(draw(op1()))
        elif kind == "cliff":
            o.append(draw(st.sampled_from(conv.CLIFF_WORDS)))
        elif kind == "meas":
            o += [draw(meas()), draw(st.integers(0, 1))]
        elif kind == "fin":
            o.append(draw(st.permutations(list(range(6)))))
        elif kind == "bad":
            o.append(draw(st.sampled_from(["entangle", "measure", "clifford", "byproduct", "single"])))
        ops.append(o)
    return {"be": draw(st.sampled_from(["sv", "svcap", "dm"])), "labels": draw(st.permutations(list(range(12)))), "ops": ops}


def oracle_backend(case, info: Info) -> None:  # noqa: ANN001, C901, PLR0912, PLR0915
    want = {}
    sel = Script(lambda q: want[q])
    dm = case["be"] == "dm"
    be = DensityMatrixBackend(branch_selector=sel) if dm else StatevectorBackend.with_capacity(2, branch_selector=sel) if case["be"] == "svcap" else StatevectorBackend(branch_selector=sel)
    if case["be"] == "svcap":
        check(be.state.max_qubits >= 2 and be.nqubit == 0, "capacity of the backend")
    reg = ref.Reg()
    reg.t = np.ones((1,), dtype=complex)
    order: list[int] = []
    fresh = [x * 3 - 5 for x in case["labels"]]
    kinds = set()
    for o in case["ops"]:
        kind = o[0]
        live = sorted(order)
        what = f"{o} with nodes {order}"
        if kind == "add":
            k = min(len(o[3]), 5 - len(order), len(fresh))
            if k <= 0:
                continue
            nodes = [fresh.pop() for _ in range(k)]
            l = o[3][:k]
            style = o[4]
            if style == 0:
                be.add_nodes(nodes)
                vs = [ref.STATES["PLUS"]] * k
            elif style == 1:
                be.add_nodes(nodes, conv.state(l[0]))
                vs = [ref.state_vec(l[0])] * k
            elif style == 2:
                be.add_nodes(tuple(nodes), [conv.state(x) for x in l])
                vs = [ref.state_vec(x) for x in l]
            else:
                vs = [ref.state_vec(x) for x in l]
                amps = ref.kron_all([x.reshape(-1, 1) for x in vs]).reshape(-1)
                be.add_nodes(nodes, amps if style == 3 else Statevector(amps))
            for x, a in zip(nodes, vs):
                reg.add(x, a)
            order += nodes
        elif kind == "cz" and len(live) >= 2:
            q = pick(o[1:3], len(live), 2)
            be.entangle_nodes((live[q[0]], live[q[1]]))
            reg.cz(live[q[0]], live[q[1]])
        elif kind == "bad":
            x = 50 + o[1]
            call = {"entangle": lambda: be.entangle_nodes((x, live[0] if live else x + 1)), "measure": lambda: be.measure(x, conv.measurement(["P", "X", 1])),  # noqa: B023
                    "clifford": lambda: be.apply_clifford(x, conv.clifford("H")), "byproduct": lambda: be.correct_byproduct(command.X(x)),  # noqa: B023
                    "single": lambda: be.apply_single(x, ref.word("H"))}[o[3]]  # noqa: B023
            check(raises(Exception, call) is not None, f"{what}: node {x} does not exist, yet accepted")
        elif not live:
            continue
        elif kind == "single":
            x = live[o[1] % len(live)]
            m = mk1(o[3])
            be.apply_single(x, m)
            reg.op1(x, m)
        elif kind == "cliff":
            x = live[o[1] % len(live)]
            be.apply_clifford(x, conv.clifford(o[3]))
            reg.op1(x, ref.word(o[3]))
        elif kind in ("x", "z"):
            x = live[o[1] % len(live)]
            be.correct_byproduct(command.X(x) if kind == "x" else command.Z(x))
            reg.op1(x, ref.word(kind.upper()))
        elif kind == "meas":
            x = live[o[1] % len(live)]
            want[x] = o[4]
            b = ref.meas_vector(o[3])
            r0 = reg.copy()
            r0.bra(x, ref.ket_of(b))
            p0 = r0.norm2() / reg.norm2()
            res = be.measure(x, conv.measurement(o[3]))
            q, p, out = sel.log[-1]
            check(q == x and int(res) == out, f"{what}: measured {q} with result {res}, expected {x} with {out}")
            check(abs(p - p0) < 1e-7, f"{what}: probability of 0 is {p}, reference {p0}")
            reg.bra(x, ref.ket_of(-b if out else b))
            order.remove(x)
        elif kind == "fin":
            order = [order[i] for i in o[3] if i < len(order)]
            be.finalize(list(order))
        else:
            continue
        kinds.add(kind)
        info.label(kind)
        check(list(be.node_index) == order, f"{what}: node order {list(be.node_index)}, expected {order}")
        check(be.nqubit == len(order), f"{what}: {be.nqubit} qubits")
        for i, x in enumerate(order):
            check(be.node_index.index(x) == i, f"{what}: index of {x}")
        v = reg.matrix(order)[:, 0]
        v = v / np.linalg.norm(v)
        if dm:
            check(np.allclose(np.asarray(be.state.rho), np.outer(v, v.conj()), atol=1e-6), lambda: f"{what}: density matrix\n{np.round(be.state.rho, 4).tolist()}\nreference state {np.round(v, 4).tolist()}")
        else:
            check(same_state(psi_of(be.state), v, 1e-6), lambda: f"{what}: state\n{np.round(psi_of(be.state), 4).tolist()}\nreference\n{np.round(v, 4).tolist()}")
    info.label(case["be"])
    info.nt({"cz", "meas"} <= kinds)


SUBS = [
    Sub("history", strat_history, oracle_history, 6000, 90000, 8, "at least three kinds of transforming operations executed"),
    Sub("large", strat_large, oracle_large, 150, 3000, 6, "at least two operations on 13 or more qubits"),
    Sub("backend", strat_backend, oracle_backend, 3000, 60000, 6, "contains an entangling step and a measurement"),
]
