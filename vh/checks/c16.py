"""C16: histories of density-matrix operations against a naive dense reference.

A pool of density matrices (pure and mixed initial data in every accepted form) is driven through random operation
sequences and compared after every step with a reference that embeds every operator by Kronecker products; physicality
(Hermitian, positive, unit trace) is checked after every trace-preserving step, queries must equal the reference and
leave the state bit-for-bit unchanged, and invalid requests must raise and leave it unchanged.
"""
from __future__ import annotations

import copy
import math

import numpy as np
from hypothesis import strategies as st

from graphix import channels
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates
from vh import conv, gen, ref
from vh.checks.c15 import meas, meas_proj, mk1, mkk, nq, op1, opk, pick, r_permute, styled
from vh.core import Fail, Info, Sub, check
from vh.util import mat, mats, ops as operators, raises, unitary_from, vec, vecs

MAXQ = 4


def nrho(rho):  # noqa: ANN001, ANN201
    return int(rho.shape[0]).bit_length() - 1


def r_conj(rho, m, q):  # noqa: ANN001, ANN201
    e = ref.embed(m, q, nrho(rho))
    return e @ rho @ e.conj().T


def r_ptrace(rho, qs):  # noqa: ANN001, ANN201
    n = nrho(rho)
    keep = [q for q in range(n) if q not in qs]
    k = len(keep)
    out = np.zeros((2**k, 2**k), dtype=complex)

    def bit(i, q):  # noqa: ANN001, ANN202
        return (i >> (n - 1 - q)) & 1

    for i in range(2**n):
        for j in range(2**n):
            if all(bit(i, q) == bit(j, q) for q in qs):
                a = sum(bit(i, q) << (k - 1 - t) for t, q in enumerate(keep))
                b = sum(bit(j, q) << (k - 1 - t) for t, q in enumerate(keep))
                out[a, b] += rho[i, j]
    return out


def r_permute_rho(rho, p):  # noqa: ANN001, ANN201
    n = nrho(rho)
    m = np.array([r_permute(row.copy(), p) for row in rho]).T
    return np.array([r_permute(row.copy(), p) for row in m]).T.reshape(2**n, 2**n)


def mixed(a):  # noqa: ANN001, ANN201
    """Trace-one positive matrix from an arbitrary integer matrix."""
    m = mat(a)
    r = m @ m.conj().T + 0.01 * np.eye(m.shape[0])
    return r / np.trace(r).real


KINDS = ["dephasing_channel", "depolarising_channel", "pauli", "two_qubit_depolarising_channel", "two_qubit_depolarising_tensor_channel", "amplitude_damping_channel", "custom", "custom2"]


def channel_of(c):  # noqa: ANN001, ANN201
    """(channel object, list of plain Kraus matrices, number of qubits)."""
    kind, p, m1, m2 = c
    if kind in ("custom", "custom2"):
        k = 1 if kind == "custom" else 2
        dim = 2**k
        a = np.vstack([mat(m1)[:dim, :dim] + 3.3 * np.eye(dim), mat(m2)[:dim, :dim] + 1.1j * np.eye(dim), np.eye(dim) * 0.7])
        q, _ = np.linalg.qr(a)
        ops = [q[i * dim:(i + 1) * dim] for i in range(3)]
        coefs = [1.0, 0.5, 1j * 0.25]
        data = [channels.KrausData(cf, o / cf) for cf, o in zip(coefs, ops)]
        return channels.KrausChannel(data), ops, k
    if kind == "pauli":
        kind = "depolarising_channel"
    ch = getattr(channels, kind)(p)
    ops = [complex(k.coef) * np.asarray(k.operator) for k in ch]
    return ch, ops, nq(ops[0])


@st.composite
def strat_history(draw):  # noqa: ANN001, ANN201
    def init():  # noqa: ANN202
        return draw(st.one_of(
            st.just(["empty"]), st.just(["default"]),
            st.tuples(st.just("states"), st.lists(st.sampled_from(gen.STATE_NAMES), min_size=1, max_size=2)).map(list),
            st.integers(0, 2).flatmap(lambda n: st.tuples(st.just("amps"), vecs(n)).map(list)),
            st.integers(1, 2).flatmap(lambda n: st.tuples(st.just("mix"), mats(n), st.integers(0, 3)).map(list)),
        ))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        kind = draw(st.sampled_from(["add", "addmix", "amps", "cz", "cnot", "ev1", "ev1", "evk", "evk", "swap", "perm", "proj", "proj", "remove", "ptrace", "ptrace",
                                     "tensor", "copy", "chan", "chan", "nonunit", "norm", "q1", "q1", "fid", "flat", "bad", "noise"]))
        o = [kind, draw(st.integers(0, 1)), draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.integers(0, 5))]
        if kind == "add":
            o.append(draw(st.lists(st.one_of(st.sampled_from(gen.STATE_NAMES), st.tuples(st.just("P"), st.sampled_from(gen.PLANES), gen.angles()).map(list)), min_size=1, max_size=2)))
        elif kind == "addmix":
            o.append(draw(st.integers(1, 2).flatmap(mats)))
        elif kind == "amps":
            o.append(draw(st.integers(0, 2).flatmap(vecs)))
        elif kind in ("ev1", "q1"):
            o += [draw(op1()), draw(st.integers(0, 4))]
        elif kind == "evk":
            o += [draw(opk()), draw(st.integers(0, 4))]
        elif kind == "nonunit":
            o.append(draw(operators(1)))
        elif kind == "perm":
            o.append(draw(st.permutations(list(range(MAXQ)))))
        elif kind == "proj":
            o += [draw(meas()), draw(st.integers(0, 1)), draw(st.integers(0, 4))]
        elif kind in ("chan", "noise"):
            k = draw(st.sampled_from(KINDS))
            z = 2 if k == "custom2" else 1
            o.append([k, draw(st.sampled_from([0.0, 1.0, 0.25, 0.5, 0.1, 0.9])), draw(mats(z)), draw(mats(z))])
        elif kind == "fid":
            o.append(draw(st.integers(0, 10**6)))
        elif kind == "bad":
            o.append(draw(st.sampled_from(["evolve_single", "shape", "evolve_rep", "evolve_dim", "evolve_rect", "evolve_out", "entangle", "permute", "channel", "channel_dim", "expect", "expect_shape", "add_len", "add_mat", "ptrace"])))
        ops.append(o)
    return {"init": init(), "ops": ops}


def start(c):  # noqa: ANN001, ANN201
    if c[0] == "empty":
        return DensityMatrix(nqubit=0), np.ones((1, 1), dtype=complex)
    if c[0] == "default":
        return DensityMatrix(), np.full((2, 2), 0.5, dtype=complex)
    if c[0] == "states":
        v = ref.kron_all([ref.state_vec(s).reshape(-1, 1) for s in c[1]]).reshape(-1)
        return DensityMatrix([conv.state(s) for s in c[1]]), np.outer(v, v.conj())
    if c[0] == "amps":
        v = vec(c[1])
        return DensityMatrix(v), np.outer(v, v.conj())
    r = mixed(c[1])
    data = [r.copy(), r.tolist(), DensityMatrix(r), [tuple(x) for x in r]][c[2]]
    return DensityMatrix(data), r


def bad_call(kind, dm, a, b, c):  # noqa: ANN001, ANN201
    n = dm.nqubit
    out = n + a if b % 2 else -1 - a
    if kind == "evolve_single":
        return lambda: dm.evolve_single(ref.word("H"), out)
    if kind == "shape":
        m = [np.eye(4), np.eye(3), np.ones(2), np.ones((2, 3))][c % 4].astype(complex)
        return None if not n else lambda: dm.evolve_single(m, a % n)
    if kind == "evolve_rep":
        return None if not n else lambda: dm.evolve(ref.CNOT, [a % n, a % n])
    if kind == "evolve_dim":
        return None if n < 2 else lambda: dm.evolve(np.eye([2, 8, 3, 16][c % 4]).astype(complex), [0, 1])
    if kind == "evolve_rect":
        return None if n < 2 else lambda: dm.evolve(np.ones([(4, 2), (2, 8), (4,), (2, 2, 4)][c % 4]).astype(complex), [0, 1])
    if kind == "evolve_out":
        return lambda: dm.evolve(ref.CNOT, [0, out] if c % 2 else [out, 0])
    if kind == "entangle":
        return lambda: dm.entangle((out, 0))
    if kind == "permute":
        p = list(range(n + 1)) if c % 2 or not n else [0] * n if n > 1 else [1]
        return lambda: dm.permute(p)
    if kind == "channel":
        return lambda: dm.apply_channel(ref.word("H"), [0])
    if kind == "channel_dim":
        return None if n < 2 else lambda: dm.apply_channel(channels.depolarising_channel(0.1), [0, 1])
    if kind == "expect":
        return lambda: dm.expectation_single(np.eye(2), out)
    if kind == "expect_shape":
        return None if not n else lambda: dm.expectation_single(np.eye(4), a % n)
    if kind == "add_len":
        return lambda: dm.add_nodes(1 + a % 2, [BasicStates.ZERO] * (1 + a % 2 + 1 + b % 2))
    if kind == "add_mat":
        m = [np.diag([1, 1]), np.diag([2, -1]), np.array([[0.5, 0.5], [0, 0.5]]), np.eye(3) / 3, np.eye(4) / 4][c % 5]
        return lambda: dm.add_nodes(1, m)
    if kind == "ptrace":
        return lambda: dm.ptrace([out])
    raise ValueError(kind)


def oracle_history(case, info: Info) -> None:  # noqa: ANN001, C901, PLR0912, PLR0915
    d0, r0 = start(case["init"])
    pool, refs = [d0], [r0]
    physical = [True]
    done = set()

    def verify(what: str) -> None:
        for i, (d, r) in enumerate(zip(pool, refs)):
            got = np.asarray(d.rho)
            check(d.nqubit == nrho(r) and tuple(d.dims()) == r.shape, lambda: f"after {what}: state {i} has {d.nqubit} qubits and shape {d.dims()}, expected {r.shape}")
            check(got.dtype != object, lambda: f"after {what}: state {i} became an array of objects")
            if not np.allclose(got, r, atol=1e-8 * max(1, abs(np.trace(r)))):
                raise Fail(f"after {what}: state {i} is\n{np.round(got, 5).tolist()}\nreference\n{np.round(r, 5).tolist()}")
            if physical[i]:
                check(abs(np.trace(got) - 1) < 1e-7, lambda: f"after {what}: trace {np.trace(got)}")
                check(np.allclose(got, got.conj().T, atol=1e-9), lambda: f"after {what}: not Hermitian")
                check(np.linalg.eigvalsh((got + got.conj().T) / 2).min() > -1e-8, lambda: f"after {what}: not positive")

    verify("initialisation")
    for o in case["ops"]:
        kind, s, ix = o[0], o[1] % len(pool), o[2:5]
        dm, r = pool[s], refs[s]
        n = nrho(r)
        what = f"{o[:5]} (state {s}, {n} qubits)"
        if kind == "add" and n < MAXQ:
            l = o[5][: MAXQ - n]
            if ix[0] % 3 == 0:
                dm.add_nodes(len(l), conv.state(l[0]))
                l = [l[0]] * len(l)
            else:
                dm.add_nodes(len(l), [conv.state(x) for x in l])
            for x in l:
                v = ref.state_vec(x)
                refs[s] = np.kron(refs[s], np.outer(v, v.conj()))
        elif kind == "addmix" and n + nrho(mat(o[5])) <= MAXQ:
            m = mixed(o[5])
            dm.add_nodes(nrho(m), [m.copy(), m.tolist(), DensityMatrix(m)][ix[0] % 3])
            refs[s] = np.kron(r, m)
        elif kind == "amps" and n + nq(o[5]) <= MAXQ:
            v = vec(o[5])
            dm.add_nodes(nq(v), [v.copy(), list(v), Statevector(v)][ix[0] % 3])
            refs[s] = np.kron(r, np.outer(v, v.conj()))
        elif kind in ("cz", "cnot", "swap") and n >= 2:
            q = pick(ix, n, 2)
            {"cz": dm.entangle, "cnot": dm.cnot, "swap": dm.swap}[kind]((q[0], q[1]))
            refs[s] = r_conj(r, {"cz": ref.CZ, "cnot": ref.CNOT, "swap": ref.SWAP}[kind], q)
        elif kind == "ev1" and n >= 1:
            m = mk1(o[5])
            mm = styled(m, o[6])
            dm.evolve_single(mm, ix[0] % n)
            check(np.array_equal(mm, m), f"{what}: the operator was modified")
            refs[s] = r_conj(r, m, [ix[0] % n])
        elif kind == "evk" and n >= nq(mkk(o[5])):
            m = mkk(o[5])
            q = pick(ix, n, nq(m))
            dm.evolve(styled(m, o[6]), tuple(q) if ix[0] % 2 else q)
            refs[s] = r_conj(r, m, q)
        elif kind == "perm":
            p = [x for x in o[5] if x < n]
            dm.permute(p)
            refs[s] = r_permute_rho(r, p)
        elif kind == "proj" and n >= 1:
            q = ix[0] % n
            pr = meas_proj(o[5], o[6])
            a = r_conj(r, pr, [q])
            if abs(np.trace(a)) < 1e-4 * abs(np.trace(r)):
                pr = meas_proj(o[5], 1 - o[6])
                a = r_conj(r, pr, [q])
            dm.project_qubit(styled(pr, o[7]), q)
            a = r_ptrace(a, [q])
            refs[s] = a / np.trace(a)
            physical[s] = True
        elif kind == "remove" and n >= 1:
            dm.remove_qubit(ix[0] % n)
            a = r_ptrace(r, [ix[0] % n])
            refs[s] = a / np.trace(a)
            physical[s] = True
        elif kind == "ptrace" and n >= 1:
            q = pick(ix, n, 1 + ix[1] % min(n, 3))
            dm.ptrace(q[0] if len(q) == 1 and ix[2] % 2 else tuple(q) if ix[2] % 3 == 0 else q)
            refs[s] = r_ptrace(r, q)
        elif kind == "tensor":
            j = ix[0] % len(pool)
            if n + nrho(refs[j]) > MAXQ:
                continue
            dm.tensor(pool[j])
            refs[s] = np.kron(r, refs[j])
            physical[s] = physical[s] and physical[j]
        elif kind == "copy":
            new = DensityMatrix(dm) if ix[0] % 2 else DensityMatrix(dm, nqubit=n)
            if len(pool) < 2:
                pool.append(new)
                refs.append(r.copy())
                physical.append(physical[s])
            else:
                pool[1 - s], refs[1 - s], physical[1 - s] = new, r.copy(), physical[s]
        elif kind == "chan" and physical[s]:
            ch, ops, k = channel_of(o[5])
            if n < k:
                continue
            q = pick(ix, n, k)
            dm.apply_channel(ch, q)
            refs[s] = sum(r_conj(r, m, q) for m in ops)
            info.label("channel " + o[5][0])
        elif kind == "nonunit" and n >= 1:
            m = mat(o[5]) / 2
            a = r_conj(r, m, [ix[0] % n])
            if not 0.01 < abs(np.trace(a)) < 100:
                continue
            dm.evolve_single(m, ix[0] % n)
            refs[s] = a
            physical[s] = False
        elif kind == "norm":
            dm.normalize()
            refs[s] = r / np.trace(r)
            physical[s] = True
        elif kind in ("q1", "fid", "flat"):
            before = np.array(dm.rho)
            if kind == "q1" and n >= 1:
                m = mk1(o[5])
                e = complex(np.trace(ref.embed(m, [ix[0] % n], n) @ r) / np.trace(r))
                g = complex(dm.expectation_single(styled(m, o[6]), ix[0] % n))
                check(abs(e - g) < 1e-7, lambda: f"{what}: expectation {g} instead of {e}")
            elif kind == "fid":
                rng = np.random.default_rng(o[5])
                v = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
                v /= np.linalg.norm(v)
                if ix[0] % 3 == 0:
                    v = np.linalg.eigh(r)[1][:, -1]
                e = complex(v.conj() @ r @ v)
                g = dm.fidelity(Statevector(v))
                check(isinstance(g, float) and abs(e - g) < 1e-7 * max(1, abs(e)), lambda: f"{what}: fidelity {g} instead of {e}")
            else:
                f = np.asarray(dm.flatten())
                check(f.shape == (4**n,) and np.allclose(f, r.reshape(-1), atol=1e-7 * max(1, abs(np.trace(r)))), f"{what}: flatten")
                f[:] = 7
            check(np.array_equal(before, np.asarray(dm.rho)), f"{what}: the query changed the state")
        elif kind == "bad":
            call = bad_call(o[5], dm, *ix)
            if call is None:
                continue
            e = raises(Exception, call)
            check(e is not None, f"{what}: invalid request {o[5]} accepted")
            info.label("rejected " + o[5])
        else:
            continue
        done.add(kind)
        verify(what)
    for k in done:
        info.label(k)
    info.nt(len(done & {"cz", "ev1", "evk", "swap", "perm", "proj", "ptrace", "tensor", "chan", "nonunit", "cnot", "remove"}) >= 3)


# ---------------------------------------------------------------- pure histories against state vectors

@st.composite
def strat_pure(draw):  # noqa: ANN001, ANN201
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["ev1", "evk", "perm", "swap", "proj"]))
        o = [kind, [draw(st.integers(0, 5)) for _ in range(3)]]
        if kind == "ev1":
            o.append(draw(op1()))
        elif kind == "evk":
            o.append(draw(opk()))
        elif kind == "perm":
            o.append(draw(st.permutations(list(range(4)))))
        elif kind == "proj":
            o.append(draw(meas()))
            o.append(draw(st.integers(0, 1)))
        ops.append(o)
    return {"v": draw(vecs(n)), "ops": ops}


def oracle_pure(case, info: Info) -> None:  # noqa: ANN001
    """The same calls on both representations keep rho = |psi><psi|."""
    v = vec(case["v"])
    sv, dm = Statevector(v), DensityMatrix(v)
    for o in case["ops"]:
        n = sv.nqubit
        kind, ix = o[0], o[1]
        if n == 0:
            break
        if kind == "ev1":
            args = ("evolve_single", mk1(o[2]), ix[0] % n)
        elif kind == "evk":
            m = mkk(o[2])
            if nq(m) > n:
                continue
            args = ("evolve", m, pick(ix, n, nq(m)))
        elif kind == "perm":
            args = ("permute", [x for x in o[2] if x < n])
        elif kind == "swap":
            if n < 2:
                continue
            args = ("swap", tuple(pick(ix, n, 2)))
        else:
            q = ix[0] % n
            pr = meas_proj(o[2], o[3])
            if sv.expectation_single(pr, q).real < 1e-4:
                pr = meas_proj(o[2], 1 - o[3])
            args = ("project_qubit", pr, q)
        getattr(sv, args[0])(*args[1:])
        getattr(dm, args[0])(*args[1:])
        f = np.asarray(sv.flatten())
        check(np.allclose(np.outer(f, f.conj()), dm.rho, atol=1e-7), lambda: f"after {o}: the two representations disagree:\n{np.round(f, 4).tolist()}\n{np.round(dm.rho, 4).tolist()}")
        check(abs(dm.fidelity(sv) - 1) < 1e-7, lambda: f"after {o}: fidelity of the two representations {dm.fidelity(sv)}")
        c = copy.copy(dm)
        c.normalize()
        check(np.allclose(c.rho, dm.rho, atol=1e-8), "normalising a normalised state")
        info.label(kind)
    info.nt(len(case["ops"]) >= 3)


SUBS = [
    Sub("history", strat_history, oracle_history, 5000, 80000, 8, "at least three kinds of transforming operations executed"),
    Sub("pure", strat_pure, oracle_pure, 1000, 20000, 2, "at least three operations"),
]
