"""C26: every entry of the Clifford, Pauli, sign and unit tables against 2x2 matrices.

All 24 Cliffords, 576 products, all Cliffords times all 16 Paulis and all Pauli pairs are enumerated; matrices to
recognise (true Cliffords times any scalar, perturbed ones, arbitrary ones, wrong shapes), domains to commute, numbers
multiplied with signs and units, and rotation angles are generated.  The oracle is plain numpy arithmetic; the open
graph of a Clifford is evaluated by the independent open-graph semantics.
"""
from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix.clifford import Clifford, Domains
from graphix.fundamentals import Axis, ComplexUnit, I, Sign
from graphix.measurements import PauliMeasurement
from graphix.ops import Ops
from graphix.pauli import Pauli
from vh import gen, ref
from vh.conv import AXES, meas_desc
from vh.core import Discard, Info, Sub, check
from vh.util import raises

ALL = list(range(24))
SCOPE = {"Clifford": Clifford, "Pauli": Pauli, "ComplexUnit": ComplexUnit, "Sign": Sign}
IXYZ = [I, Axis.X, Axis.Y, Axis.Z]
UNITS = [1, 1j, -1, -1j]


def phase_eq(a: np.ndarray, b: np.ndarray) -> bool:
    return ref.same_up_to_phase(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex), 1e-9)


def pauli(k: int, u: int) -> tuple[Pauli, np.ndarray]:
    unit = next(x for x in ComplexUnit if abs(complex(x) - UNITS[u]) < 1e-9)
    return Pauli(IXYZ[k], unit), UNITS[u] * ref.PAULI["IXYZ"[k]]


def pmat(p: Pauli) -> np.ndarray:
    """Meaning of a Pauli from its fields."""
    return complex(p.unit) * ref.PAULI[p.symbol.name]


QASM = {"id": ref.I2, "x": ref.X, "y": ref.Y, "z": ref.Z, "s": ref.S, "sdg": ref.S.conj().T, "h": ref.H}


def oracle_element(case: Any, info: Info) -> None:
    c = Clifford(case["i"])
    m = np.asarray(c.matrix)
    info.nt()
    check(m.shape == (2, 2) and np.allclose(m @ m.conj().T, np.eye(2)), f"{c!r}: matrix {m.tolist()} is not unitary")
    for p in "XYZ":
        q = m @ ref.PAULI[p] @ m.conj().T
        check(any(np.allclose(q, s * ref.PAULI[r]) for r in "XYZ" for s in (1, -1)), f"Clifford({case['i']}) maps {p} outside of the Pauli group")
    check(phase_eq(c.conj.matrix, m.conj().T), f"conj of Clifford({case['i']}) is {c.conj.value}")
    named = {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "S": ref.S, "SDG": ref.S.conj().T, "H": ref.H}
    for name, w in named.items():
        check(np.allclose(np.asarray(getattr(Clifford, name).matrix), w), f"Clifford.{name} has another matrix")
    prod = ref.I2
    for g in c.hsz:
        check(g in (Clifford.I, Clifford.H, Clifford.S, Clifford.Z), f"{g} in the HSZ decomposition of {case['i']}")
        prod = prod @ np.asarray(g.matrix)
    check(phase_eq(prod, m), f"hsz of Clifford({case['i']}) multiplies to another gate")
    prod = ref.I2
    for g in c.qasm3:
        check(g in QASM, f"unknown OpenQASM gate {g}")
        prod = QASM[g] @ prod
    check(phase_eq(prod, m), f"qasm3 sequence {c.qasm3} of Clifford({case['i']}) is another gate")
    check(eval(repr(c), dict(SCOPE)) is c, f"eval(repr) of Clifford({case['i']}): {c!r}")  # noqa: S307
    check(isinstance(str(c), str), "str")
    og = c.to_opengraph()
    check(all(isinstance(x, PauliMeasurement) for x in og.measurements.values()), "to_opengraph has other measurements")
    desc = {"nodes": sorted(og.graph.nodes), "edges": sorted(sorted(e) for e in og.graph.edges), "in": list(og.input_nodes), "out": list(og.output_nodes),
            "meas": [[n, meas_desc(x)] for n, x in og.measurements.items()]}
    check(len(desc["in"]) == 1 and len(desc["out"]) == 1, "to_opengraph is not a single-qubit open graph")
    mo = ref.opengraph_map(desc)
    check(ref.prop_to(mo, m), lambda: f"to_opengraph of Clifford({case['i']}) implements {np.round(mo, 3).tolist()}")
    for ph in (1, -1, 1j, np.exp(0.3j), 3e-10j, -2e8, 1e-6 + 1e-6j):
        check(Clifford.try_from_matrix(m * ph) is c, f"Clifford({case['i']}) times {ph} not recognised")


def oracle_pair(case: Any, info: Info) -> None:
    a, b = Clifford(case["a"]), Clifford(case["b"])
    info.nt(case["a"] != case["b"])
    check(case["a"] == case["b"] or not phase_eq(a.matrix, b.matrix), f"Cliffords {case['a']} and {case['b']} are the same gate")
    c = a @ b
    check(isinstance(c, Clifford) and phase_eq(c.matrix, np.asarray(a.matrix) @ np.asarray(b.matrix)), f"Clifford({case['a']}) @ Clifford({case['b']}) = Clifford({c.value})")


def oracle_conjugation(case: Any, info: Info) -> None:
    c = Clifford(case["i"])
    m = np.asarray(c.matrix)
    p, pm = pauli(case["k"], case["u"])
    info.nt(case["k"] > 0)
    r = c.measure(p)
    check(np.allclose(pmat(r), m.conj().T @ pm @ m), f"Clifford({case['i']}).measure({p!r}) = {r!r}")
    check(p == pauli(case["k"], case["u"])[0], "measure changed its argument")
    if case["k"]:
        ax = IXYZ[case["k"]]
        r = c.measure_axis(ax)
        check(np.allclose(pmat(r), m.conj().T @ ref.PAULI[ax.name] @ m), f"Clifford({case['i']}).measure_axis({ax}) = {r!r}")


def oracle_commute(case: Any, info: Info) -> None:
    c = Clifford(case["i"])
    m = np.asarray(c.matrix)
    s, t = set(case["s"]), set(case["t"])
    info.nt(bool(s or t))
    dom = Domains(set(s), set(t))
    d = c.commute_domains(dom)
    check(dom == Domains(s, t), "commute_domains changed its argument")
    check(d.s_domain is not dom.s_domain and d.t_domain is not dom.t_domain, "commute_domains shares sets with its argument")
    names = sorted(s | t | set(d.s_domain) | set(d.t_domain))
    check(set(names) <= s | t, "commute_domains invents nodes")

    def op(ss: Any, tt: Any, on: set[int]) -> np.ndarray:
        return np.linalg.matrix_power(ref.X, len(set(ss) & on)) @ np.linalg.matrix_power(ref.Z, len(set(tt) & on))

    # parities are linear: singletons and a few larger outcome sets
    for on in [{n} for n in names] + [set(names), set(names[::2])]:
        lhs = op(s, t, on) @ m
        rhs = m @ op(d.s_domain, d.t_domain, on)
        check(phase_eq(lhs, rhs), f"X^sZ^t C != C X^s'Z^t' for Clifford({case['i']}), s={s}, t={t}, outcomes 1 on {on}: {d}")
    back = c.conj.commute_domains(d)
    check(back == Domains(s, t), f"commuting back through the conjugate of Clifford({case['i']}) gives {back} from {d}")


def oracle_pauli_pair(case: Any, info: Info) -> None:
    a, ma = pauli(case["a"], case["u"])
    b, mb = pauli(case["b"], case["v"])
    info.nt(case["a"] != case["b"])
    check(np.allclose(np.asarray(a.matrix), ma), f"matrix of {a!r}")
    check(np.allclose(pmat(a @ b), ma @ mb), f"{a!r} @ {b!r} = {a @ b!r}")
    check((a == b) == np.allclose(ma, mb) and (a != b or hash(a) == hash(b)), f"{a!r} == {b!r}")
    check(np.allclose(pmat(-a), -ma), f"-({a!r}) = {-a!r}")
    for u, v in zip(ComplexUnit, (1, 1j, -1, -1j)):
        for val in (u, complex(u), v):
            check(np.allclose(pmat(a * val), ma * v) and np.allclose(pmat(val * a), ma * v), f"{a!r} times {val}: {a * val!r}, {val * a!r}")
    for sg in Sign:
        check(np.allclose(pmat(sg * a), int(sg) * ma) and np.allclose(pmat(a * sg), int(sg) * ma), f"{sg!r} * {a!r}")
    check(eval(repr(a), dict(SCOPE)) == a, f"eval(repr) of {a!r}")  # noqa: S307
    check(str(a) == repr(a).replace("Pauli.", ""), f"str {a} of {a!r}")
    if a.symbol == I:
        check(raises(ValueError, lambda: a.axis) is not None, "axis of the identity accepted")
    else:
        check(a.axis == a.symbol and Pauli.from_axis(a.axis) == Pauli(a.symbol), "from_axis")
    unit1 = Pauli(a.symbol)
    for k in (0, 1):
        v = np.asarray(unit1.eigenstate(k).to_statevector_numpy())
        want = 1 if a.symbol == I else (-1) ** k
        check(abs(np.linalg.norm(v) - 1) < 1e-9 and np.allclose(pmat(unit1) @ v, want * v), f"eigenstate({k}) of {unit1!r}")
    for bad in (2, -1):
        check(raises(ValueError, lambda: a.eigenstate(bad)) is not None, f"eigenstate({bad}) accepted")


def oracle_iterate(case: Any, info: Info) -> None:
    info.nt()
    full = list(Pauli) if case["meta"] else list(Pauli.iterate())
    check(len(full) == 16 and len(set(full)) == 16 and all(isinstance(p, Pauli) for p in full), f"iterate gives {full}")
    sym = list(Pauli.iterate(symbol_only=True))
    check(len(sym) == 4 and set(sym) == {Pauli.I, Pauli.X, Pauli.Y, Pauli.Z} and all(p.unit == ComplexUnit.ONE for p in sym), f"iterate(symbol_only) gives {sym}")
    for n, p in (("I", Pauli.I), ("X", Pauli.X), ("Y", Pauli.Y), ("Z", Pauli.Z)):
        check(np.allclose(pmat(p), ref.PAULI[n]) and np.allclose(np.asarray(p.matrix), ref.PAULI[n]), f"Pauli.{n}")
        check(np.allclose(np.asarray(Ops.from_ixyz(p.symbol)), ref.PAULI[n]), f"from_ixyz({n})")
        if n != "I":
            check(np.allclose(np.asarray(Ops.from_axis(AXES[n])), ref.PAULI[n]), f"from_axis({n})")
    for n, w in (("I", ref.I2), ("X", ref.X), ("Y", ref.Y), ("Z", ref.Z), ("H", ref.H), ("S", ref.S), ("SDG", ref.S.conj().T), ("CZ", ref.CZ),
                 ("CNOT", ref.CNOT), ("SWAP", ref.SWAP), ("CCX", ref.CCX)):
        got = getattr(Ops, n)
        check(np.allclose(np.asarray(got), w), f"Ops.{n}")
        check(not got.flags.writeable, f"Ops.{n} is writeable: a caller could change the constant")
    for c in Clifford:
        check(not c.matrix.flags.writeable, "a Clifford matrix is writeable")
    for n in (1, 2, 3):
        ops = Ops.build_tensor_pauli_ops(n)
        words = list(itertools.product("IXYZ", repeat=n))
        check(len(ops) == 4**n and all(np.allclose(o, ref.pauli_string(w)) for o, w in zip(ops, words)), f"build_tensor_pauli_ops({n})")
    for bad, exc in ((0, ValueError), (-1, ValueError), (1.5, TypeError), ("2", TypeError)):
        check(raises(exc, lambda: Ops.build_tensor_pauli_ops(bad)) is not None, f"build_tensor_pauli_ops({bad!r}) accepted")


@st.composite
def matrices(draw: Any) -> Any:
    kind = draw(st.sampled_from(["clifford", "clifford", "tiny", "near", "near", "unitary", "random", "sparse", "shape"]))
    i = draw(st.integers(0, 23))
    ang = draw(gen.angles())
    e = draw(st.lists(st.integers(-8, 8), min_size=8, max_size=8))
    return {"kind": kind, "i": i, "ph": ang, "e": e, "eps": draw(st.sampled_from([2e-3, 1e-2, 0.1, 0.5])), "shape": draw(st.sampled_from([[1, 4], [4, 1], [4], [3, 3], [2, 3], [4, 4], [2, 2, 1], [1, 1], [0, 0]])),
            "ro": draw(st.booleans()), "fortran": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 2.5, -0.5, 1e-4, 3e-10, 1e7]))}


def is_clifford(m: np.ndarray) -> tuple[int | None, float]:
    """Index of the Clifford proportional to m, and the distance to the nearest one (relative to the norm)."""
    n = np.linalg.norm(m)
    if n < 1e-12:
        return None, 1.0
    best, arg = 1.0, None
    for k in range(24):
        c = np.asarray(Clifford(k).matrix)
        ov = abs(np.vdot(c, m)) / (np.linalg.norm(c) * n)
        d = float(np.sqrt(max(0.0, 2 - 2 * min(1.0, ov))))
        if d < best:
            best, arg = d, k
    return arg, best


def oracle_recognise(case: Any, info: Info) -> None:
    k = case["kind"]
    info.label(k)
    if k == "shape":
        m = np.resize(np.asarray(Clifford(case["i"]).matrix), case["shape"])
        check(Clifford.try_from_matrix(m) is None, f"array of shape {case['shape']} recognised as a Clifford")
        info.nt()
        return
    base = np.asarray(Clifford(case["i"]).matrix) * np.exp(1j * np.pi * case["ph"])
    e = np.array([complex(a, b) for a, b in zip(case["e"][:4], case["e"][4:])]).reshape(2, 2)
    if k == "clifford":
        m = base.copy()
    elif k == "tiny":
        m = base + 1e-13 * e
    elif k == "near":
        if np.linalg.norm(e) == 0:
            raise Discard
        m = base + case["eps"] * e / np.linalg.norm(e)
    elif k == "unitary":
        m = ref.rot("Z", case["e"][0] / 7.3) @ ref.rot("X", case["e"][1] / 5.1) @ ref.rot("Z", case["ph"])
    elif k == "random":
        m = e
    else:
        m = e * (np.array(case["e"][:4]).reshape(2, 2) > 0)
    arg, dist = is_clifford(m)
    if 1e-9 < dist < 1e-3:
        raise Discard
    m = m * case.get("scale", 1.0)
    if case["fortran"]:
        m = np.asfortranarray(m)
    before = m.copy()
    if case["ro"]:
        m.setflags(write=False)
    got = Clifford.try_from_matrix(m)
    check(np.array_equal(m, before), "try_from_matrix changed its argument")
    info.nt()
    if dist <= 1e-9:
        info.label("accept")
        check(got is not None and got.value == arg, f"matrix {m.tolist()} is Clifford({arg}) up to phase, but {got!r} was found")
    else:
        info.label("reject")
        check(got is None, f"matrix {m.tolist()} (distance {dist:.2g} from the Cliffords) recognised as {got!r}")


@st.composite
def numbers(draw: Any) -> Any:
    re_, im_ = draw(st.integers(-6, 6)), draw(st.integers(-6, 6))
    return {"type": draw(st.sampled_from(["int", "float", "complex", "np", "sign", "bool"])), "re": re_, "im": im_, "sign": draw(st.sampled_from([1, -1])),
            "unit": draw(st.integers(0, 3)), "near": draw(st.integers(0, 3)), "eps": draw(st.sampled_from([0.0, 1e-13, 1e-11, 1e-7, 1e-3, 0.5])),
            "dir": draw(st.integers(0, 7)), "rel": draw(st.sampled_from([None, 1e-9, 1e-5, 0.1])), "abs": draw(st.sampled_from([None, 0.0, 1e-6, 0.2]))}


def oracle_numbers(case: Any, info: Info) -> None:
    info.nt()
    s = Sign.PLUS if case["sign"] > 0 else Sign.MINUS
    sv = case["sign"]
    check(Sign.plus_if(sv > 0) is s and Sign.minus_if(sv < 0) is s, "plus_if/minus_if")
    check(int(-s) == -sv and int(s) == sv and float(s) == sv and complex(s) == sv, f"conversions of {s!r}")
    check(str(s) == ("+" if sv > 0 else "-") and eval(repr(s), dict(SCOPE)) is s, f"str/repr {s!r}")  # noqa: S307
    ty = case["type"]
    v: Any
    if ty == "int":
        v, res = case["re"], int
    elif ty == "bool":
        v, res = case["re"] > 0, int
    elif ty == "float":
        v, res = case["re"] / 4, float
    elif ty == "complex":
        v, res = complex(case["re"] / 2, case["im"]), complex
    elif ty == "np":
        v, res = np.float64(case["re"] / 4), float
    else:
        v, res = (Sign.PLUS if case["re"] > 0 else Sign.MINUS), Sign
    got = s * v
    if ty == "sign":
        check(isinstance(got, Sign) and int(got) == sv * int(v), f"{s!r} * {v!r} = {got!r}")
    else:
        check(isinstance(got, res) and got == sv * v, f"{s!r} * {v!r} = {got!r} ({type(got).__name__})")
        got = v * s
        check(isinstance(got, res) and got == sv * v, f"{v!r} * {s!r} = {got!r} ({type(got).__name__})")
    check(raises(TypeError, lambda: s * "a") is not None and raises(TypeError, lambda: s * None) is not None, "Sign times a string accepted")  # type: ignore[operator]
    # units
    u = list(ComplexUnit)[case["unit"]]
    w = list(ComplexUnit)[case["near"]]
    cu, cw = complex(u), complex(w)
    check({np.round(complex(x), 12) for x in ComplexUnit} == {1, 1j, -1, -1j} and len(list(ComplexUnit)) == 4, "values of the units")
    check(complex(ComplexUnit.ONE) == 1 and complex(ComplexUnit.MINUS_ONE) == -1 and abs(complex(ComplexUnit.J) - 1j) < 1e-12 and abs(complex(ComplexUnit.MINUS_J) + 1j) < 1e-12, "unit names")
    check(abs(complex(u * w) - cu * cw) < 1e-12 and abs(complex(-u) + cu) < 1e-12, f"{u!r} * {w!r}")
    check(u.is_imag == (abs(cu.real) < 0.5) and int(u.sign) == round(cu.real + cu.imag), f"properties of {u!r}")
    check(ComplexUnit.from_properties(sign=u.sign, is_imag=u.is_imag) is u, f"from_properties of {u!r}")
    check(abs(complex(str(u)) - cu) < 1e-12 and eval(repr(u), dict(SCOPE)) is u, f"str/repr of {u!r}: {u}")  # noqa: S307
    check(ComplexUnit.from_or_none(u) is u, "from_or_none of a unit")
    for val in (cw, {1: 1, -1: -1}.get(round(cw.real), cw), np.complex128(cw)):
        check(abs(complex(u * val) - cu * cw) < 1e-9 and abs(complex(val * u) - cu * cw) < 1e-9, f"{u!r} * {val!r}")
    check(abs(complex(u * s) - cu * sv) < 1e-12, f"{u!r} * {s!r}")
    # recognition within the tolerances, as documented (isclose on complex numbers)
    val = cw + case["eps"] * np.exp(1j * np.pi * case["dir"] / 4)
    kw = {}
    if case["rel"] is not None:
        kw["rel_tol"] = case["rel"]
    if case["abs"] is not None:
        kw["abs_tol"] = case["abs"]
    rel, ab = kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0)
    hits = []
    for x in ComplexUnit:
        d = abs(val - complex(x))
        lim = max(rel * max(abs(val), 1.0), ab)
        if d and abs(d - lim) < 0.02 * lim:
            raise Discard  # on the boundary
        if d <= lim:
            hits.append(x)
    got = ComplexUnit.from_or_none(val, **kw)
    if len(hits) > 1:
        raise Discard
    check(got is (hits[0] if hits else None), f"from_or_none({val}, {kw}) = {got!r}")
    info.label("unit" if hits else "not a unit")
    if not kw:
        if hits:
            check(abs(complex(u * val) - cu * cw) < 1e-6, f"{u!r} * {val!r}")
            check(np.allclose(pmat(Pauli.X * val), cw * ref.X), "Pauli times a unit")
        else:
            check(raises(TypeError, lambda: u * val) is not None, f"{u!r} * {val} accepted")
            check(raises(TypeError, lambda: Pauli.X * val) is not None, f"Pauli.X * {val} accepted")
            check(raises(TypeError, lambda: complex(val) * Pauli.X) is not None, f"{val} * Pauli.X accepted")


def oracle_rotation(case: Any, info: Info) -> None:
    a = case["a"]
    info.nt(a != 0)
    for name, fn in (("X", Ops.rx), ("Y", Ops.ry), ("Z", Ops.rz)):
        check(np.allclose(fn(a), ref.rot(name, a), atol=1e-9), f"R{name}({a}) = {fn(a).tolist()}")
    check(np.allclose(Ops.j(a), ref.jmat(a), atol=1e-9), f"J({a}) = {Ops.j(a).tolist()}")
    check(np.allclose(Ops.rzz(a), ref.expm_pauli(np.kron(ref.Z, ref.Z), a * np.pi), atol=1e-9), f"RZZ({a}) = {Ops.rzz(a).tolist()}")
    for fn in (Ops.rx, Ops.ry, Ops.rz, Ops.j, Ops.rzz):
        check(fn(a).dtype == np.complex128, "dtype of a rotation")


SUBS = [
    Sub("element", None, oracle_element, 24, enumerate=lambda tier: ({"i": i} for i in ALL), shards=1, rule="every Clifford"),
    Sub("pair", None, oracle_pair, 576, enumerate=lambda tier: ({"a": a, "b": b} for a in ALL for b in ALL), shards=1, rule="different Cliffords"),
    Sub("conjugation", None, oracle_conjugation, 384, enumerate=lambda tier: ({"i": i, "k": k, "u": u} for i in ALL for k in range(4) for u in range(4)), shards=1, rule="Pauli other than the identity"),
    Sub("commute", lambda: st.fixed_dictionaries({"i": st.integers(0, 23), "s": st.lists(st.integers(0, 12), max_size=6, unique=True), "t": st.lists(st.integers(0, 12), max_size=6, unique=True)}),
        oracle_commute, 1500, 20000, shards=1, rule="some domain is not empty"),
    Sub("paulis", None, oracle_pauli_pair, 256, enumerate=lambda tier: ({"a": a, "u": u, "b": b, "v": v} for a in range(4) for u in range(4) for b in range(4) for v in range(4)), shards=1, rule="different symbols"),
    Sub("tables", None, oracle_iterate, 2, enumerate=lambda tier: ({"meta": m} for m in (True, False)), shards=1, rule="every case"),
    Sub("recognise", matrices, oracle_recognise, 1500, 30000, shards=1, rule="every case kept"),
    Sub("numbers", numbers, oracle_numbers, 1500, 20000, shards=1, rule="every case kept"),
    Sub("rotation", lambda: st.fixed_dictionaries({"a": gen.angles()}), oracle_rotation, 600, 6000, shards=1, rule="angle other than 0"),
]
