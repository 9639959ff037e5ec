"""C27: each description of a measurement or preparation state against the projector it denotes.

Planes, axes, the 24 Cliffords and the 6 Pauli measurements are enumerated; angles (Pauli, near-Pauli, quarter, generic,
far outside [0, 2), int and float) and tolerances are generated.  The oracle computes Bloch vectors and projectors from
the documented convention only; recognition within a tolerance is judged away from the boundary of the tolerance.
"""
from __future__ import annotations

import math
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix.clifford import Clifford
from graphix.fundamentals import ANGLE_PI, Axis, Plane, Sign, angle_to_rad, rad_to_angle
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement, outcome, toggle_outcome
from graphix.ops import Ops
from graphix.pauli import Pauli
from graphix.states import BasicStates, PlanarState
from vh import gen, ref
from vh.conv import AXES, PLANES
from vh.core import Discard, Info, Sub, check
from vh.util import raises

SCOPE = {"Measurement": Measurement, "Plane": Plane, "Axis": Axis, "graphix": __import__("graphix")}
PNAMES = ["XY", "YZ", "XZ"]


def bvec(m: Any) -> np.ndarray:
    """Bloch vector of the outcome-0 projector, from the fields only."""
    if isinstance(m, BlochMeasurement):
        return ref.bloch_vector(m.plane.name, float(m.angle))
    check(isinstance(m, PauliMeasurement), f"unexpected measurement {m!r}")
    return ref.meas_vector(["P", m.axis.name, 1 if m.sign is Sign.PLUS else -1])


def conj_vec(c: Clifford, v: np.ndarray) -> np.ndarray:
    """Bloch vector of C^dagger P C."""
    m = np.asarray(c.matrix)
    op = m.conj().T @ (v[0] * ref.X + v[1] * ref.Y + v[2] * ref.Z) @ m
    return np.array([np.trace(op @ ref.PAULI[p]).real / 2 for p in "XYZ"])


def oracle_plane(case: Any, info: Info) -> None:
    p = PLANES[case["p"]]
    info.nt()
    cos, sin = ref.PLANE_AXES[case["p"]]
    check(p.cos.name == cos and p.sin.name == sin, f"{p}: cos {p.cos}, sin {p.sin}")
    check({a.name for a in p.axes} == {cos, sin} and len(p.axes) == 2, f"axes of {p}: {p.axes}")
    check({p.orth.name, cos, sin} == set("XYZ"), f"orth of {p}: {p.orth}")
    check(p.to_plane() is p and p.to_plane_or_axis() is p, "to_plane")
    for a in Axis:
        check(a.to_plane_or_axis() is a, "to_plane_or_axis of an axis")
        for b in Axis:
            if a is b:
                check(raises(ValueError, lambda: Plane.from_axes(a, b)) is not None, f"plane of {a} twice accepted")
            else:
                q = Plane.from_axes(a, b)
                check({x.name for x in q.axes} == {a.name, b.name}, f"from_axes({a}, {b}) = {q}")
            check(a.isclose(b) == (a is b), "closeness of axes")
        check(not a.isclose(p) and not p.isclose(a), f"{a} close to {p}")
    for q in Plane:
        check(p.isclose(q) == (p is q), "closeness of planes")
    for c in Clifford:
        want = {np.flatnonzero(np.abs(conj_vec(c, np.eye(3)["XYZ".index(x)])) > 0.5)[0] for x in (cos, sin)}
        q = p.clifford(c)
        check({"XYZ".index(x.name) for x in q.axes} == want, f"{p}.clifford({c!r}) = {q}")
        for a in Axis:
            k = "XYZ".index(a.name)
            b = a.clifford(c)
            check(abs(conj_vec(c, np.eye(3)[k])["XYZ".index(b.name)]) > 0.5, f"{a}.clifford({c!r}) = {b}")
    check(eval(repr(p), dict(SCOPE)) is p, f"repr of {p!r}")  # noqa: S307


def oracle_pauli(case: Any, info: Info) -> None:
    info.nt()
    listed = list(PauliMeasurement)
    check(len(listed) == 6 and len({(m.axis, m.sign) for m in listed}) == 6, f"iteration gives {listed}")
    m = PauliMeasurement(AXES[case["a"]], Sign.PLUS if case["s"] > 0 else Sign.MINUS)
    v = ref.meas_vector(["P", case["a"], case["s"]])
    check(m in listed, f"{m!r} not listed")
    check(+m == m and np.allclose(bvec(-m), -v), f"-{m!r} = {-m!r}")
    check(getattr(Measurement, case["a"]) == PauliMeasurement(AXES[case["a"]]) == PauliMeasurement(AXES[case["a"]], Sign.PLUS), "Measurement.X/Y/Z")
    pm = m.to_pauli()
    check(isinstance(pm, Pauli) and np.allclose(np.asarray(pm.matrix), case["s"] * ref.PAULI[case["a"]]), f"to_pauli of {m!r}: {pm!r}")
    check(m.to_pauli_or_none() == m and m.to_pauli_or_bloch() == m and m.to_plane_or_axis() is AXES[case["a"]], "conversions of a Pauli measurement")
    b = m.to_bloch()
    conv = {("X", 1): ("XY", 0), ("X", -1): ("XY", 1), ("Y", 1): ("XY", 0.5), ("Y", -1): ("XY", 1.5), ("Z", 1): ("YZ", 0), ("Z", -1): ("YZ", 1)}[case["a"], case["s"]]
    check((b.plane.name, b.angle) == conv, f"to_bloch of {m!r} is {b!r}")
    check(np.allclose(bvec(b), v) and b.to_pauli_or_none() == m, f"to_bloch of {m!r}")
    check(not m.isclose(b) and not b.isclose(m), "a Pauli and a Bloch measurement are close")
    check(raises(TypeError, m.downcast_bloch) is not None, "downcast_bloch accepted a Pauli measurement")
    check(eval(repr(m), dict(SCOPE)) == m and str(m) == ("+" if case["s"] > 0 else "-") + case["a"], f"repr {m!r}, str {m}")  # noqa: S307
    for o in listed:
        check(m.isclose(o) == (np.allclose(bvec(o), v)) == (m == o), f"{m!r}.isclose({o!r})")
    for c in Clifford:
        r = m.clifford(c)
        check(isinstance(r, PauliMeasurement) and np.allclose(bvec(r), conj_vec(c, v)), f"{m!r}.clifford({c!r}) = {r!r}")
        r2 = m.to_bloch().clifford(c)
        check(isinstance(r2, BlochMeasurement) and r2.to_pauli_or_none() == r, f"{m!r}.to_bloch().clifford({c!r}) = {r2!r}")
    basic = {("X", 1): BasicStates.PLUS, ("X", -1): BasicStates.MINUS, ("Y", 1): BasicStates.PLUS_I, ("Y", -1): BasicStates.MINUS_I, ("Z", 1): BasicStates.ZERO, ("Z", -1): BasicStates.ONE}[case["a"], case["s"]]
    k = np.asarray(basic.to_statevector_numpy())
    check(np.allclose(np.outer(k, k.conj()), ref.proj_of(v)), f"{basic!r} is not the eigenstate of {m!r}")
    names = {("X", 1): "PLUS", ("X", -1): "MINUS", ("Y", 1): "PLUS_I", ("Y", -1): "MINUS_I", ("Z", 1): "ZERO", ("Z", -1): "ONE"}
    check(np.allclose(k, ref.STATES[names[case["a"], case["s"]]]), f"amplitudes of {basic!r}")
    check(outcome(True) == 1 and outcome(False) == 0 and toggle_outcome(0) == 1 and toggle_outcome(1) == 0, "outcome helpers")
    check(ANGLE_PI == 1, "ANGLE_PI")


@st.composite
def blochs(draw: Any) -> Any:
    kind = draw(st.sampled_from(["generic", "pauli", "near", "unit", "int", "big"]))
    half = draw(st.integers(-9, 9))
    if kind == "pauli":
        a: Any = half / 2
    elif kind == "int":
        a = half
    elif kind == "near":
        a = half / 2 + draw(st.sampled_from([1, -1])) * 10.0 ** -draw(st.integers(2, 14)) * draw(st.sampled_from([0.3, 0.7, 1.7]))
    elif kind == "unit":
        a = draw(st.integers(0, 1999)) / 1000
    elif kind == "big":
        a = draw(st.integers(-400, 400)) / 2 + draw(st.sampled_from([0, 0.1, 1e-10]))
    else:
        a = draw(gen.angles())
    return {"p": draw(st.sampled_from(PNAMES)), "a": a, "kind": kind, "c": draw(st.integers(0, 23)), "rel": draw(st.sampled_from([None, 1e-9, 1e-6, 0.01, 0.0])),
            "abs": draw(st.sampled_from([None, 0.0, 1e-8, 1e-3]))}


def tolerances(case: Any) -> dict[str, float]:
    kw = {}
    if case["rel"] is not None:
        kw["rel_tol"] = case["rel"]
    if case["abs"] is not None:
        kw["abs_tol"] = case["abs"]
    return kw


def within(x: float, y: float, kw: dict[str, float]) -> bool:
    """math.isclose; cases near the boundary are discarded."""
    d = abs(x - y)
    lim = max(kw.get("rel_tol", 1e-9) * max(abs(x), abs(y)), kw.get("abs_tol", 0.0))
    if d > 0 and abs(d - lim) < 0.02 * max(lim, d) + 1e-15 * abs(x):
        raise Discard
    return d <= lim


def oracle_bloch(case: Any, info: Info) -> None:  # noqa: PLR0915
    p, a = case["p"], case["a"]
    plane = PLANES[p]
    info.label(case["kind"])
    ctor = {"XY": Measurement.XY, "YZ": Measurement.YZ, "XZ": Measurement.XZ}[p]
    m = ctor(a)
    check(isinstance(m, BlochMeasurement) and m == BlochMeasurement(a, plane) and m.angle == a and m.plane is plane, f"constructor gives {m!r}")
    v = ref.bloch_vector(p, a)
    check(np.allclose(plane.polar(a), v, atol=1e-9), f"{plane}.polar({a}) = {plane.polar(a)}")
    check(m.to_bloch() == m and m.downcast_bloch() == m and m.to_plane() is plane and m.to_plane_or_axis() is plane, "conversions")
    check(eval(repr(m), dict(SCOPE)) == m, f"repr {m!r}")  # noqa: S307
    c = Clifford(case["c"])
    r = m.clifford(c)
    check(isinstance(r, BlochMeasurement), f"clifford returns {r!r}")
    check(np.allclose(bvec(r), conj_vec(c, v), atol=1e-9), f"{m!r}.clifford({c!r}) = {r!r}: {bvec(r)} instead of {conj_vec(c, v)}")
    if 0 <= a < 2:
        check(0 <= r.angle < 2, f"{m!r}.clifford({c!r}) = {r!r} leaves [0, 2)")
        info.label("in range")
    # Pauli recognition
    kw = tolerances(case)
    k = round(2 * a)
    hit = within(2 * a, k, kw)
    got = m.to_pauli_or_none(**kw)
    info.nt(not (case["kind"] == "generic" and not hit))
    if hit:
        check(isinstance(got, PauliMeasurement), f"{m!r} with {kw} not recognised as a Pauli measurement")
        assert got is not None
        check(float(np.dot(bvec(got), v)) > 0.8, f"{m!r}.to_pauli_or_none({kw}) = {got!r}")
        check(m.to_pauli_or_bloch(**kw) == got, "to_pauli_or_bloch")
    else:
        check(got is None, f"{m!r} recognised as {got!r} with {kw}")
        check(m.to_pauli_or_bloch(**kw) == m, "to_pauli_or_bloch")
    info.label("Pauli" if hit else "not Pauli")
    # units
    check(math.isclose(angle_to_rad(a), a * math.pi, rel_tol=1e-12) and math.isclose(rad_to_angle(angle_to_rad(a)), a, rel_tol=1e-12, abs_tol=1e-15), "angle units")
    check(math.isclose(rad_to_angle(a), a / math.pi, rel_tol=1e-12), "angle units")
    # preparation states follow the same convention
    s = PlanarState(plane, a)
    k_ = np.asarray(s.to_statevector_numpy())
    check(np.allclose(np.outer(k_, k_.conj()), ref.proj_of(v), atol=1e-9), f"{s!r} is {k_.tolist()}")
    check(np.allclose(k_, ref.planar(p, a), atol=1e-9), f"{s!r} is {k_.tolist()} instead of {ref.planar(p, a).tolist()}")
    check(np.allclose(np.asarray(s.to_densitymatrix_numpy()), ref.proj_of(v), atol=1e-9), f"density matrix of {s!r}")
    check(eval(repr(s), dict(SCOPE)) == s, f"repr {s!r}")  # noqa: S307
    # rotating about the orthogonal axis turns the plane (the sign follows the orientation cos -> sin)
    orth = {"XY": (Ops.rz, 1), "YZ": (Ops.rx, -1), "XZ": (Ops.ry, 1)}[p]
    u = np.asarray(orth[0](orth[1] * a))
    zero = ref.proj_of(ref.bloch_vector(p, 0))
    check(np.allclose(u @ zero @ u.conj().T, ref.proj_of(v), atol=1e-9), f"rotation by {a} does not turn {p}")


@st.composite
def pairs(draw: Any) -> Any:
    a = draw(st.one_of(gen.angles(), st.integers(-6, 6).map(lambda k: k / 2)))
    d = draw(st.sampled_from([0, 0, 1e-13, 1e-11, 3e-8, 1e-4, 0.03, 0.3, 1, 2]))
    return {"p": draw(st.sampled_from(PNAMES)), "q": draw(st.sampled_from(PNAMES)) if draw(st.booleans()) else None, "a": float(a), "b": float(a + draw(st.sampled_from([1, -1])) * d),
            "rel": draw(st.sampled_from([None, 1e-9, 1e-6, 0.01, 0.0])), "abs": draw(st.sampled_from([None, 0.0, 1e-8, 1e-3])),
            "kind": draw(st.sampled_from(["bloch", "bloch", "bloch", "pauli", "plane"]))}


def oracle_close(case: Any, info: Info) -> None:
    m = BlochMeasurement(case["a"], PLANES[case["p"]])
    kw = tolerances(case)
    if case["kind"] != "bloch":
        o: Any = m.to_pauli_or_bloch() if case["kind"] == "pauli" else PLANES[case["p"]]
        if isinstance(o, BlochMeasurement):
            o = Measurement.X
        check(not m.isclose(o, **kw) and not o.isclose(m, **kw), f"{m!r} close to {o!r}")
        info.label("other kind")
        return
    q = case["q"] or case["p"]
    o = BlochMeasurement(case["b"], PLANES[q])
    want = within(case["a"], case["b"], kw) and q == case["p"]
    check(m.isclose(o, **kw) == want, f"{m!r}.isclose({o!r}, {kw}) = {m.isclose(o, **kw)}")
    check(m.isclose(o, **kw) == o.isclose(m, **kw), "closeness is not symmetric")
    if want and kw.get("rel_tol", 0) <= 1e-6 and kw.get("abs_tol", 0) <= 1e-6:
        check(np.allclose(bvec(m), bvec(o), atol=1e-4), "close measurements with different projectors")
    check((m == o) == (case["a"] == case["b"] and q == case["p"]), "equality")
    if m == o:
        check(hash(m) == hash(o), "hash")
    info.nt(case["a"] != case["b"] or q != case["p"])
    info.label("close" if want else "not close")


SUBS = [
    Sub("plane", None, oracle_plane, 3, enumerate=lambda tier: ({"p": p} for p in PNAMES), shards=1, rule="every plane"),
    Sub("pauli", None, oracle_pauli, 6, enumerate=lambda tier: ({"a": a, "s": s} for a in "XYZ" for s in (1, -1)), shards=1, rule="every Pauli measurement"),
    Sub("bloch", blochs, oracle_bloch, 5000, 100000, shards=2, rule="not just a generic angle that is no Pauli angle"),
    Sub("close", pairs, oracle_close, 2000, 30000, shards=1, rule="two different Bloch measurements"),
]
