"""C31: printed forms read back by an independent parser and compared with the printed object.

Every evaluable representation is evaluated; the notation of numbers, state vectors, density matrices, commands,
patterns, flows and corrections is parsed in all three formats, with all options, and its value compared with the
object: exactly for discrete content, within the stated tolerances for numbers.
"""
from __future__ import annotations

import cmath
import math
import re
from contextvars import copy_context
from typing import Any

import numpy as np
from hypothesis import strategies as st

import graphix
import graphix.states
from graphix import Circuit, Pattern, command, instruction
from graphix.circ_ext.extraction import PauliString
from graphix.clifford import Clifford
from graphix.command import CommandKind
from graphix.flow.core import CausalFlow, GFlow, PauliFlow
from graphix.fundamentals import Axis, ComplexUnit, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.parameter import AffineExpression, Placeholder
from graphix.pauli import Pauli
from graphix.pretty_print import OutputFormat, affine_expression_to_str, angle_to_str, command_to_str, complex_to_str, default_output_format, pattern_to_str
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates, PlanarState
from vh import big, conv, flowgen, gen, ref
from vh.checks import c19
from vh.core import Fail, Info, Sub, check
from vh.textmath import Text, number, real

FORMATS = {"ASCII": OutputFormat.ASCII, "LaTeX": OutputFormat.LaTeX, "Unicode": OutputFormat.Unicode}
fmts = st.sampled_from(sorted(FORMATS))


def printed(fn: Any, fmt: str, way: int) -> str:
    """fn(output) with the format given explicitly or through the context variable."""
    if way:
        return fn(FORMATS[fmt])

    def run() -> str:
        default_output_format.set(FORMATS[fmt])
        return fn(None)

    return copy_context().run(run)


# -------------------------------------------------------------------- numbers

@st.composite
def angle_cases(draw: Any) -> dict[str, Any]:
    den = draw(st.one_of(st.integers(1, 12), st.integers(1, 1200), st.sampled_from([997, 999, 1000, 1001, 2000, 4999])))
    num = draw(st.one_of(st.integers(-3 * den, 3 * den), st.integers(-20000, 20000)))
    return {"num": num, "den": den, "eps": draw(st.sampled_from([0, 0, 0, 0, 1e-12, 1e-10, 3e-10, 1e-8, -1e-6, 1e-4, 0.001234])), "fmt": draw(fmts), "way": draw(st.integers(0, 1)), "mul": draw(st.booleans()), "max": draw(st.sampled_from([1000, 1000, 1000, 1, 2, 8, 100, 5000])), "int": draw(st.booleans())}


def angle_oracle(case: Any, info: Info) -> None:
    a: Any = case["num"] / case["den"] + case["eps"]
    if case["int"] and a == int(a):
        a = int(a)
    kw = {"multiplication_sign": case["mul"]}
    if case["max"] != 1000:
        kw["max_denominator"] = case["max"]
    text = printed(lambda o: angle_to_str(a, o, **kw), case["fmt"], case["way"])
    t = number(text, case["fmt"])
    got = t.value / math.pi
    check(not isinstance(got, complex) and abs(got - a) <= 1.01e-9 * abs(a), lambda: f"the angle {a!r} is printed as {text!r}, which is {got!r}")
    g = math.gcd(case["num"], case["den"])
    simple = case["eps"] == 0 and case["den"] // g <= case["max"]
    if simple:
        check("pi" in text or "π" in text or text == "0", lambda: f"{case['num']}/{case['den']} is printed as {text!r}")
        check(all(d <= case["max"] for d in t.dens), lambda: f"{text!r} has a denominator beyond {case['max']}")
        check(all(d == case["den"] // g for d in t.dens), lambda: f"{text!r} is not reduced")
    sign = {"ASCII": "*", "LaTeX": r"\times", "Unicode": "×"}[case["fmt"]]
    num = abs(case["num"] // g)
    check((sign in text) == (simple and case["mul"] and num > 1) or not simple, lambda: f"{text!r} with multiplication_sign={case['mul']}")
    info.nt(a != 0)
    info.label("fraction" if t.dens else "decimal" if t.decimal else "multiple", case["fmt"])


def tol_real(x: float, v: float, atol: float, rtol: float) -> bool:
    return abs(x - v) <= 1.01 * max(atol, rtol * max(abs(x), abs(v))) + 1e-13 * abs(x) or abs(x * x - v * v) <= 1.01 * max(atol, rtol * max(x * x, v * v)) + 1e-13 * x * x


def tol_decimal(x: float, v: float, prec: int, atol: float) -> bool:
    """v is x rounded."""
    return abs(v - float(f"{x:.{prec}g}")) <= 1e-12 * abs(x) or (v == 0 and abs(x) <= 1.01 * atol)


def tol_phase(z: complex, v: complex, atol: float, rtol: float) -> bool:
    d = (cmath.phase(z) - cmath.phase(v)) / math.pi
    d -= 2 * round(d / 2)
    return abs(d) <= 1.01 * max(atol, rtol) + 1e-13


def denotes(t: Text, z: complex, atol: float, rtol: float, prec: int) -> bool:
    """Whether the text of a number stands for z within the tolerances of its notation."""
    v = complex(t.value)
    if t.plain and tol_decimal(z.real, v.real, prec, atol) and tol_decimal(z.imag, v.imag, prec, atol):
        return True
    if t.decimal and t.plain:
        return False
    if tol_real(z.real, v.real, atol, rtol) and tol_real(z.imag, v.imag, atol, rtol):
        return True
    return tol_real(abs(z), abs(v), atol, rtol) and tol_phase(z, v, atol, rtol)


@st.composite
def reals(draw: Any) -> float:
    kind = draw(st.integers(0, 6))
    if kind == 0:
        return draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]))
    if kind <= 2:
        q = draw(st.one_of(st.integers(1, 16), st.integers(1, 1100)))
        return draw(st.sampled_from([1, -1])) * math.sqrt(draw(st.integers(0, 3 * q)) / q)
    if kind == 3:
        q = draw(st.integers(1, 1100))
        return draw(st.integers(-3 * q, 3 * q)) / q
    if kind == 4:
        return draw(st.floats(-2, 2, allow_nan=False))
    return draw(st.sampled_from([1, -1])) * 10 ** draw(st.floats(-12, 2, allow_nan=False))


@st.composite
def complexes(draw: Any) -> list[float]:
    kind = draw(st.integers(0, 4))
    if kind <= 1:
        z = complex(draw(reals()), draw(st.one_of(st.just(0.0), reals())))
        if draw(st.booleans()):
            z = complex(z.imag, z.real)
    elif kind <= 3:
        z = draw(st.one_of(st.just(1.0), reals())) * cmath.exp(1j * math.pi * draw(st.one_of(st.integers(-16, 16).map(lambda k: k / 8), st.integers(-12, 12).map(lambda k: k / 12), st.integers(-2100, 2100).map(lambda k: k / 1050), st.floats(-1, 1, allow_nan=False))))
    else:
        z = draw(st.sampled_from([1, -1, 1j, 0.5 + 0.5j, 0.6 + 0.8j, -0.6 + 0.8j, 5 / 13 - 12j / 13, 0.5 + 0.25j]))
    e = draw(st.sampled_from([0, 0, 0, 0, 1e-15, 1e-10, 1e-9, 2e-9, 1e-7, 1e-5, 1e-3]))
    z += e * complex(draw(st.sampled_from([1, -1, 0])), draw(st.sampled_from([1, -1, 0])))
    return [z.real, z.imag]


OPTIONS = st.fixed_dictionaries({"atol": st.sampled_from([1e-9, 1e-9, 1e-9, 1e-12, 1e-6, 1e-3]), "rtol": st.sampled_from([0.0, 0.0, 0.0, 1e-6, 1e-3]), "precision": st.sampled_from([4, 4, 4, 1, 2, 7, 12]), "max_denominator": st.sampled_from([1000, 1000, 1000, 1, 2, 12, 5000])})
DEFAULTS = {"atol": 1e-9, "rtol": 0.0, "precision": 4, "max_denominator": 1000}


def options(o: Any) -> dict[str, Any]:
    return {k: v for k, v in o.items() if v != DEFAULTS[k]}


def number_oracle(case: Any, info: Info) -> None:
    z = complex(*case["z"])
    o = case["opt"]
    given: Any = z
    if case["type"] == "numpy":
        given = np.complex128(z)
    elif case["type"] == "real" and z.imag == 0:
        given = z.real
        if given == int(given):
            given = int(given)
    text = printed(lambda f: complex_to_str(given, f, **options(o)), case["fmt"], case["way"])
    t = number(text, case["fmt"])
    check(denotes(t, z, o["atol"], o["rtol"], o["precision"]), lambda: f"{z!r} is printed as {text!r}, which is {t.value!r} ({o})")
    if not t.plain:
        check(all(d <= o["max_denominator"] for d in t.dens), lambda: f"{text!r} has a denominator beyond {o['max_denominator']}")
    if case["exact"] is not None:
        p, q, unit = case["exact"]
        w = math.sqrt(p / q) * (-1) ** unit * (1 if unit < 2 else 1j)
        text = printed(lambda f: complex_to_str(w, f), case["fmt"], case["way"])
        t = number(text, case["fmt"])
        check(not t.decimal and abs(t.value - w) <= 1.01e-9, lambda: f"sqrt({p}/{q})·{1 if unit < 2 else 1j} is printed as {text!r}")
        info.label("exact")
    info.nt(z != 0)
    info.label("decimal" if t.decimal else "exponential" if "e^" in text or "{e}" in text else "cartesian", case["fmt"])


@st.composite
def number_cases(draw: Any) -> dict[str, Any]:
    q = draw(st.integers(1, 1000))
    return {"z": draw(complexes()), "opt": draw(OPTIONS), "fmt": draw(fmts), "way": draw(st.integers(0, 1)), "type": draw(st.sampled_from(["python", "numpy", "real"])), "exact": draw(st.one_of(st.none(), st.tuples(st.integers(1, 4 * q), st.just(q), st.integers(0, 3)).map(list)))}


# --------------------------------------------------------------------- states

@st.composite
def state_cases(draw: Any) -> dict[str, Any]:
    n = draw(st.integers(1, 3))
    if draw(st.booleans()):
        amps = draw(st.lists(st.one_of(st.just([0.0, 0.0]), complexes()), min_size=2**n, max_size=2**n))
    else:
        r = draw(reals())
        amps = []
        for _ in range(2**n):
            z = draw(st.sampled_from([0, 1, 1, -1, 1j, -1j, 0.6 + 0.8j, -0.6 + 0.8j, -0.6 - 0.8j, 0.28 - 0.96j, cmath.exp(0.3j), cmath.exp(2.2j), cmath.exp(-2.7j), cmath.exp(1j * math.pi / 3), cmath.exp(-0.75j * math.pi)])) * r
            amps.append([z.real, z.imag])
    return {"amps": amps, "opt": draw(OPTIONS), "fmt": draw(fmts), "way": draw(st.integers(0, 1)), "enc": draw(st.sampled_from(["MSB", "MSB", "LSB"])), "normal": draw(st.booleans())}


def state_of(amps: Any, normal: bool) -> Any:
    psi = np.array([complex(*a) for a in amps])
    m = np.linalg.norm(psi)
    if normal and m > 1e-6:
        psi /= m
    n = int(math.log2(len(psi)))
    if abs(np.linalg.norm(psi) - 1) < 1e-9:
        sv = Statevector(list(psi))
    else:  # not normalised: only reachable through an operation
        sv = Statevector(nqubit=1)
        sv = Statevector([1.0] + [0.0] * (2**n - 1))
        ops = np.zeros((2**n, 2**n), dtype=complex)
        ops[:, 0] = psi
        sv.evolve(ops, list(range(n)))
    return sv


def sv_oracle(case: Any, info: Info) -> None:
    sv = state_of(case["amps"], case["normal"])
    psi = np.array(sv.flatten())
    n = sv.nqubit
    o = case["opt"]
    kw = options(o)
    if case["enc"] != "MSB":
        kw["encoding"] = case["enc"]
    text = printed(lambda f: sv.draw(f, **kw), case["fmt"], case["way"])
    t = Text(text, case["fmt"])
    keys = [format(k, f"0{n}b")[:: -1 if case["enc"] == "LSB" else 1] for k in range(2**n)]
    keep = {k for k, a in zip(keys, psi, strict=True) if abs(a) > 1.0001 * o["atol"]}
    drop = {k for k, a in zip(keys, psi, strict=True) if abs(a) < 0.9999 * o["atol"]}
    if not isinstance(t.value, dict):
        check(t.value == 0 and not keep, lambda: f"{psi.tolist()} is printed as {text!r}")
        return
    check(keep <= set(t.value) and not set(t.value) & drop, lambda: f"{psi.tolist()} is printed as {text!r}: terms {sorted(t.value)} instead of {sorted(keep)}")
    amps = dict(zip(keys, psi, strict=True))
    shared = text.endswith(")")
    r = np.mean([abs(amps[k]) for k in t.value])
    for k, v in t.value.items():
        z = complex(amps[k])
        ok = close(z, v, o)
        if not ok and shared and r > 0:
            # the modulus and the phases are printed separately
            ok = factored(z, complex(v), o)
        check(ok, lambda: f"amplitude {z} of {k} in {text!r} is {v} ({o})")  # noqa: B023
    info.nt(len(t.value) > 1)
    info.label(case["fmt"], "factored" if shared else "terms", "decimal" if t.decimal else "exact")


def close(z: complex, v: complex, o: Any) -> bool:
    a, r, p = o["atol"], o["rtol"], o["precision"]
    v = complex(v)
    def part(x: float, y: float) -> bool:
        return tol_real(x, y, a, r) or tol_decimal(x, y, p, a)
    return (part(z.real, v.real) and part(z.imag, v.imag)) or (tol_real(abs(z), abs(v), a, r) and tol_phase(z, v, a, r))


def factored(z: complex, v: complex, o: Any) -> bool:
    """The value is a product of a printed modulus and a printed phase."""
    a, r, p = o["atol"], o["rtol"], o["precision"]
    dec = 0.51 * 10 ** (1 - p)
    modulus = a + min(math.sqrt(a), a / abs(z)) + (r + dec) * abs(z)
    phase = dec + r + math.sqrt(a)  # parts of the phase below sqrt(a) may be taken to be zero
    return abs(z - v) <= 3 * modulus + 3 * phase * abs(z)


@st.composite
def dm_cases(draw: Any) -> dict[str, Any]:
    n = draw(st.integers(1, 2))
    return {"amps": draw(st.lists(st.lists(st.one_of(st.just([0.0, 0.0]), complexes()), min_size=2**n, max_size=2**n), min_size=2**n, max_size=2**n)), "opt": draw(OPTIONS), "fmt": draw(fmts), "way": draw(st.integers(0, 1)), "kind": draw(st.integers(0, 2))}


def dm_oracle(case: Any, info: Info) -> None:
    m = np.array([[complex(*a) for a in row] for row in case["amps"]])
    if case["kind"] == 0:
        psi = m[0] / np.linalg.norm(m[0]) if np.linalg.norm(m[0]) > 1e-6 else np.eye(len(m))[0]
        m = np.outer(psi, psi.conj())
    else:
        m = m @ m.conj().T if case["kind"] == 1 else np.diag(np.abs(np.diag(m)))
        tr = np.trace(m).real
        m = m / tr if tr > 1e-6 else np.eye(len(m)) / len(m)
    try:
        dm = DensityMatrix(m)
    except Exception as e:  # noqa: BLE001
        raise Fail(f"{m.tolist()} is not accepted: {e!r}") from e
    rho = np.array(dm.rho)
    o = case["opt"]
    text = dm.draw(FORMATS[case["fmt"]], **options(o))
    if case["fmt"] == "Unicode" and case["way"]:
        check(dm.draw(**options(o)) == text, "the default format is documented to be Unicode")
    if case["fmt"] == "LaTeX":
        pre, post = r"\begin{pmatrix}", r"\end{pmatrix}"
        check(text.startswith(pre) and text.endswith(post), lambda: f"{text!r}")
        rows = [r.split("&") for r in text[len(pre) : -len(post)].split(r"\\")]
    else:
        lines = text.split("\n")
        check(all(x.startswith("[ ") and x.endswith(" ]") for x in lines) and len({len(x) for x in lines}) == 1, lambda: f"misaligned\n{text}")
        rows = [re.split(r"  +", x[2:-2].strip()) for x in lines]
    check(len(rows) == len(rho) and all(len(r) == len(rho) for r in rows), lambda: f"not a matrix of size {len(rho)}:\n{text}")
    for i, row in enumerate(rows):
        for j, entry in enumerate(row):
            t = number(entry.strip(), case["fmt"])
            check(denotes(t, complex(rho[i, j]), o["atol"], o["rtol"], o["precision"]), lambda: f"entry {rho[i, j]} is printed as {entry!r} ({o})")  # noqa: B023
    info.nt(np.count_nonzero(rho) > 1)
    info.label(case["fmt"])


# ------------------------------------------------------------------- patterns

SUB, SUP = "₀₁₂₃₄₅₆₇₈₉", "⁰¹²³⁴⁵⁶⁷⁸⁹"


def unsub(s: str, digits: str = SUB) -> int:
    return int("".join(str(digits.index(c)) if c in digits else c for c in s))


def ints(s: str) -> list[int]:
    return [int(x) for x in s.split(",")] if s else []


def balanced(s: str, i: int) -> int:
    """The end of the brace group that begins at i."""
    depth = 0
    for j in range(i, len(s)):
        depth += {"{": 1, "}": -1}.get(s[j], 0)
        if depth == 0:
            return j + 1
    raise Fail(f"unbalanced braces in {s!r}")


def read_command(s: str, fmt: str) -> list[Any]:
    """Command text -> [kind, nodes, arguments (text), s-domain or domain, t-domain]."""
    if s == "T":
        return ["T", [], [], [], []]
    if fmt == "ASCII":
        m = re.fullmatch(r"(?:(?:\{(?P<t>[-\d,]*)\})?(?P<open>\[))?(?P<k>[A-Z])\((?P<n>-?\d+)(?P<a>(?:,(?!\{)[^,]+)*?)(?:,\{(?P<d>[-\d,]*)\})?\)(?:(?P<close>\])(?:\{(?P<s>[-\d,]*)\})?)?", s)
        if m is None or (m["open"] is None) != (m["close"] is None):
            raise Fail(f"cannot read the command {s!r}")
        nodes, args = [int(m["n"])], m["a"].split(",")[1:]
        sd, td = ints(m["s"] or m["d"] or ""), ints(m["t"] or "")
        kind = m["k"]
    elif fmt == "Unicode":
        e = re.fullmatch(rf"E(-?[{SUB}]+)₋(-?[{SUB}]+)", s)
        if e is not None:
            return ["E", [unsub(e[1]), unsub(e[2])], [], [], []]
        m = re.fullmatch(rf"(?P<t>(?:-?[{SUB}]+₊?)*)(?P<open>\[?)(?P<k>[A-Z])(?P<n>-?[{SUB}]+)(?:\((?P<a>.*)\))?(?P<close>\]?)(?P<s>(?:-?[{SUP}]+⁺?)*)", s)
        if m is None or bool(m["open"]) != bool(m["close"]):
            raise Fail(f"cannot read the command {s!r}")
        kind, nodes, args = m["k"], [unsub(m["n"])], m["a"].split(",") if m["a"] is not None else []
        sd = [unsub(x, SUP) for x in m["s"].split("⁺")] if m["s"] else []
        td = [unsub(x) for x in m["t"].split("₊")] if m["t"] else []
    else:
        i = 0
        td, sd, args = [], [], []
        if s.startswith("{}_"):
            j = balanced(s, 3)
            td = ints(s[4 : j - 1])
            i = j
        opened = s[i] == "["
        i += opened
        kind = s[i]
        if s[i + 1] != "_":
            raise Fail(f"cannot read the command {s!r}")
        j = balanced(s, i + 2)
        nodes = ints(s[i + 3 : j - 1])
        sups = []
        closed = False
        while j < len(s):
            if s[j] == "]" and opened and not closed:
                closed = True
                j += 1
                sups.append("]")
                continue
            if s[j] != "^":
                raise Fail(f"cannot read the command {s!r}")
            k = balanced(s, j + 1)
            sups.append(s[j + 2 : k - 1])
            j = k
        if opened != closed or (td and not opened):
            raise Fail(f"cannot read the command {s!r}")
        if kind in "XZS":
            if len(sups) > 1:
                raise Fail(f"cannot read the command {s!r}")
            sd = ints(sups[0]) if sups else []
        else:
            inner = sups[: sups.index("]")] if closed else sups
            outer = sups[sups.index("]") + 1 :] if closed else []
            if len(inner) > 1 or len(outer) > 1:
                raise Fail(f"cannot read the command {s!r}")
            args = inner[0].split(",") if inner else []
            sd = ints(outer[0]) if outer else []
    if kind == "E" and fmt == "ASCII":
        nodes, args = [*nodes, *map(int, args)], []
    check(len(set(sd)) == len(sd) and len(set(td)) == len(td), lambda: f"repeated nodes in {s!r}")
    return [kind, nodes, args, sorted(sd), sorted(td)]


MULS = {"ASCII": r"\*", "Unicode": "×", "LaTeX": r" \\times "}


def read_affine(s: str, fmt: str) -> tuple[float, str, float]:
    """Coefficients in radians."""
    m = re.fullmatch(rf"(?:(?P<a>.+){MULS[fmt]})?(?P<x>al_\w+)(?:\+(?P<b>.+))?", s)
    if m is None:
        raise Fail(f"cannot read {s!r}")
    return (real(m["a"], fmt) if m["a"] else 1.0), m["x"], (real(m["b"], fmt) if m["b"] else 0.0)


def isclose(a: float, b: float) -> bool:
    return abs(a - b) <= 3e-9 * max(abs(a), abs(b))


def check_command(cmd: Any, text: str, fmt: str) -> None:
    kind, nodes, args, sd, td = read_command(text, fmt)
    check(kind == cmd.kind.name, lambda: f"{cmd!r} is printed as {text!r}")
    want_nodes = [] if kind == "T" else list(cmd.nodes) if kind == "E" else [cmd.node]
    check(nodes == want_nodes, lambda: f"{cmd!r} is printed as {text!r}: nodes {nodes}")
    want_s = sorted(cmd.s_domain) if kind == "M" else sorted(cmd.domain) if kind in "XZS" else []
    want_t = sorted(cmd.t_domain) if kind == "M" else []
    check((sd, td) == (want_s, want_t), lambda: f"{cmd!r} is printed as {text!r}: domains {sd} and {td}")
    if kind == "M":
        m = cmd.measurement
        if isinstance(m, PauliMeasurement):
            if args:
                check(len(args) == 1 and re.fullmatch(r"[+-][XYZ]", args[0]) is not None, lambda: f"{cmd!r} is printed as {text!r}")
                got = (args[0][1], args[0][0])
            else:
                got = ("X", "+")
            check(got == (m.axis.name, "+" if m.sign is Sign.PLUS else "-"), lambda: f"{cmd!r} is printed as {text!r}")
        else:
            assert isinstance(m, BlochMeasurement)
            plane = args[0] if len(args) == 2 else "XY"
            check(plane == m.plane.name and 1 <= len(args) <= 2, lambda: f"{cmd!r} is printed as {text!r}")
            if isinstance(m.angle, AffineExpression):
                a, x, b = read_affine(args[-1], fmt)
                check(x == str(m.angle.x) and isclose(a / math.pi, m.angle.a) and isclose(b / math.pi, m.angle.b), lambda: f"{cmd!r} is printed as {text!r}")
            else:
                check(isclose(real(args[-1], fmt) / math.pi, m.angle), lambda: f"{cmd!r} is printed as {text!r}")
    elif kind == "C":
        check(args == [str(cmd.clifford)], lambda: f"{cmd!r} is printed as {text!r}")
    else:
        check(args == [], lambda: f"{cmd!r} is printed as {text!r}")


@st.composite
def pattern_cases(draw: Any, large: bool = False) -> dict[str, Any]:
    if large:
        pat = draw(big.seeded(big.soup, 40, 150, max_active=7, edge_safe=False))
    elif draw(st.booleans()):
        pat = draw(gen.soups(max_active=5, max_total=12, max_steps=30, edge_safe=False))
    else:
        pat = draw(gen.det_patterns(max_meas=6))
    size = len(pat["cmds"])
    return {
        "pat": pat, "neg": draw(st.integers(0, 3)) == 0, "ticks": draw(st.lists(st.integers(0, size), max_size=2)), "signals": draw(st.lists(st.tuples(st.integers(0, size), st.integers(0, 255)).map(list), max_size=2)),
        "par": draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from([1.0, 1.0, -1.0, 0.5, 1 / math.pi, 2.0, 0.123, -1.75]), st.sampled_from([0.0, 0.5, -0.25, 1.0, 0.777, -2.0]), st.integers(0, 1)).map(list), max_size=3)),
        "fmt": draw(fmts), "way": draw(st.integers(0, 1)), "ltr": draw(st.booleans()), "limit": draw(st.sampled_from([40, 40, None, 0, 1, 2, 3, 5, 8, size, size + 1, max(0, size - 1)])), "target": draw(st.one_of(st.none(), st.lists(st.sampled_from(list("NEMXZCTS")), unique=True))), "cont": draw(st.sampled_from(["set", "list", "frozenset"])),
    }


PARAMS = [Placeholder("al_pha"), Placeholder("al_1")]


def build(case: Any) -> Pattern:
    """The pattern of a case, with parameters, ticks and signal commands put in (so it need not be runnable)."""
    pat = case["pat"]
    cmds = [conv.cmd(c) for c in pat["cmds"]]
    ms = [i for i, c in enumerate(cmds) if c.kind == CommandKind.M]
    for k, a, b, x in case["par"]:
        if ms:
            i = ms[k % len(ms)]
            c = cmds[i]
            p = PARAMS[x]
            ang: Any = p if (a, b) == (1.0, 0.0) else AffineExpression(a, p, b)
            m = c.measurement
            plane = m.plane if isinstance(m, BlochMeasurement) else Plane.XY
            cmds[i] = command.M(c.node, BlochMeasurement(ang, plane), set(c.s_domain), set(c.t_domain))
    extra = sorted([(i, command.T()) for i in case["ticks"]] + [(i, command.S(cmds[ms[m % len(ms)]].node, {cmds[j].node for n, j in enumerate(ms) if m >> (n % 8) & 1})) for i, m in case["signals"] if ms], key=lambda t: -t[0])
    for i, c in extra:
        cmds.insert(i, c)
    p = Pattern(input_nodes=pat["in"], cmds=cmds)
    p.reorder_output_nodes(pat["out"])
    if case["neg"]:
        # negative labels
        f = {v: -v - 1 for v in [*pat["in"], *(c.node for c in cmds if c.kind == CommandKind.N)]}
        g = lambda s: {f[v] for v in s}  # noqa: E731
        new: list[Any] = []
        for c in p:
            match c.kind:
                case CommandKind.N:
                    new.append(command.N(f[c.node], c.state))
                case CommandKind.E:
                    new.append(command.E((f[c.nodes[0]], f[c.nodes[1]])))
                case CommandKind.M:
                    new.append(command.M(f[c.node], c.measurement, g(c.s_domain), g(c.t_domain)))
                case CommandKind.X:
                    new.append(command.X(f[c.node], g(c.domain)))
                case CommandKind.Z:
                    new.append(command.Z(f[c.node], g(c.domain)))
                case CommandKind.S:
                    new.append(command.S(f[c.node], g(c.domain)))
                case CommandKind.C:
                    new.append(command.C(f[c.node], c.clifford))
                case _:
                    new.append(command.T())
        p = Pattern(input_nodes=[f[v] for v in p.input_nodes], cmds=new, output_nodes=[f[v] for v in p.output_nodes])
    return p


def pattern_oracle(case: Any, info: Info) -> None:
    p = build(case)
    fmt = case["fmt"]
    before = repr(p)
    target = None
    if case["target"] is not None:
        target = {"set": set, "list": list, "frozenset": frozenset}[case["cont"]](CommandKind[k] for k in case["target"])
    kw: dict[str, Any] = {}
    if case["limit"] != 40:
        kw["limit"] = case["limit"]
    if case["ltr"]:
        kw["left_to_right"] = True
    if target is not None:
        kw["target"] = target
    text = printed(lambda f: pattern_to_str(p, f, **kw), fmt, case["way"])
    check({"ASCII": p.to_ascii, "LaTeX": p.to_latex, "Unicode": p.to_unicode}[fmt](**kw) == text, "pattern_to_str differs from the method of Pattern")
    check(printed(lambda _: str(p), fmt, 0) == printed(lambda f: pattern_to_str(p, f), fmt, 1), "str differs from pattern_to_str")
    cmds = [c for c in p if case["target"] is None or c.kind.name in case["target"]]
    if not case["ltr"]:
        cmds.reverse()
    shown = cmds
    body = text
    if case["limit"] is not None and len(cmds) > case["limit"]:
        m = re.fullmatch(r"(.*)\.\.\.\((\d+) more commands\)", text, re.S)
        check(m is not None, lambda: f"limit {case['limit']} for {len(cmds)} commands: {text!r}")
        body = m[1]
        rest = int(m[2])
        check(0 < rest <= len(cmds) and len(cmds) - rest <= case["limit"], lambda: f"{rest} more commands of {len(cmds)} with limit {case['limit']}: {text!r}")
        shown = cmds[: len(cmds) - rest]
        info.label("truncated")
    if fmt == "LaTeX":
        check(body.startswith(r"\(") and body.endswith(r"\)"), lambda: f"{body!r}")
        body = body[2:-2]
    items = body.split(r"\," if fmt == "LaTeX" else " ") if body else []
    check(len(items) == len(shown), lambda: f"{len(shown)} commands to print, {len(items)} printed: {text!r}")
    for c, s in zip(shown, items, strict=True):
        check(printed(lambda f: command_to_str(c, f), fmt, case["way"]) == s, lambda: f"command_to_str of {c!r} differs from {s!r}")  # noqa: B023
        check_command(c, s, fmt)
    check(repr(p) == before, "printing changed the pattern")
    info.nt(len(cmds) > 1)
    info.label(fmt, *{c.kind.name for c in p})


# ------------------------------------------------------------------ evaluable

SCOPE = {
    **{k: getattr(command, k) for k in ("N", "E", "M", "X", "Z", "C", "S", "T")}, "Pattern": Pattern, "Measurement": Measurement, "Clifford": Clifford, "Pauli": Pauli, "Sign": Sign, "ComplexUnit": ComplexUnit, "Axis": Axis, "Plane": Plane, "graphix": graphix, "AffineExpression": AffineExpression,
    "Placeholder": lambda name: {x.name: x for x in PARAMS}[name], **{x.name: x for x in PARAMS}, "nan": math.nan, "inf": math.inf,
}


def rebuild(x: Any) -> Any:
    try:
        return eval(repr(x), dict(SCOPE))  # noqa: S307
    except Exception as e:  # noqa: BLE001
        raise Fail(f"repr {x!r} cannot be evaluated: {e!r}") from e


def same(a: Any, b: Any) -> bool:
    return type(a) is type(b) and a == b


def eval_oracle(case: Any, info: Info) -> None:
    p = build(case)
    q = rebuild(p)
    check(isinstance(q, Pattern) and q == p and list(q) == list(p) and q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes, lambda: f"{p!r} is rebuilt as {q!r}")
    for c in p:
        d = rebuild(c)
        check(same(c, d), lambda: f"{c!r} is rebuilt as {d!r}")  # noqa: B023
        if c.kind == CommandKind.M:
            m = rebuild(c.measurement)
            check(same(m, c.measurement), lambda: f"{c.measurement!r} is rebuilt as {m!r}")  # noqa: B023
            if isinstance(m, BlochMeasurement) and isinstance(m.angle, AffineExpression):
                e = rebuild(m.angle)
                check(same(e, m.angle), lambda: f"{m.angle!r} is rebuilt as {e!r}")  # noqa: B023
        if c.kind == CommandKind.N and isinstance(c.state, PlanarState):
            s = rebuild(c.state)
            check(same(s, c.state), lambda: f"{c.state!r} is rebuilt as {s!r}")  # noqa: B023
    # sensitivity of equality itself: dropping or swapping commands makes patterns differ
    if len(p):
        check(Pattern(input_nodes=p.input_nodes, cmds=list(p)[:-1]) != p, "equality ignores the last command")
    info.nt(len(p) > 1)
    info.label(*{c.kind.name for c in p})


def gates_oracle(case: Any, info: Info) -> None:
    q = conv.circuit(case["c"])
    ops = list(q.instruction)
    for k, a, b, x in case["par"]:
        ang: Any = PARAMS[x] if (a, b) == (1.0, 0.0) else AffineExpression(a, PARAMS[x], b)
        ops.insert(k % (len(ops) + 1), [instruction.RX(0, ang), instruction.RZ(0, ang), instruction.J(0, ang)][k % 3])
    q = Circuit(q.width, instr=ops) if not any(op[0] == "M" for op in case["c"]["ops"]) else q
    got = repr(q)
    check(got == f"Circuit(width={q.width}, instr=[{', '.join(map(repr, q.instruction))}])", lambda: f"{got!r}")

    def spy(name: str) -> Any:
        return lambda *a, **k: (name, a, k)

    for i in q.instruction:
        text = repr(i)
        name = type(i).__name__
        m = re.fullmatch(rf"{name}\((.*)\)", text)
        check(m is not None, lambda: f"{text!r}")  # noqa: B023
        if hasattr(i, "angle"):
            head, ang = m[1].rsplit(", ", 1)
            cls = type(i)
            if isinstance(i.angle, AffineExpression):
                val = eval(ang, dict(SCOPE))  # noqa: S307
                check(same(val, i.angle), lambda: f"the angle of {text!r} is {val!r}")  # noqa: B023
            else:
                check(isclose(real(ang, "ASCII") / math.pi, i.angle), lambda: f"the angle of {text!r} is not {i.angle!r}")  # noqa: B023
            j = eval(f"cls({head}, 0.125)", {"cls": cls})  # noqa: S307
            check(all(getattr(j, f) == getattr(i, f) for f in ("target", "control") if hasattr(i, f)), lambda: f"{text!r} is rebuilt as {j!r}")  # noqa: B023
        else:
            j = eval(text, {**SCOPE, name: type(i)})  # noqa: S307
            check(same(i, j), lambda: f"{text!r} is rebuilt as {j!r}")  # noqa: B023
        info.label(name)
    info.nt(len(q.instruction) > 1)


@st.composite
def gates_cases(draw: Any) -> dict[str, Any]:
    return {"c": draw(gen.circuits(max_width=4, max_ops=9, measure=draw(st.integers(0, 2)) == 0)), "par": draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from([1.0, -1.0, 0.5, 2.0]), st.sampled_from([0.0, 0.5, -0.25]), st.integers(0, 1)).map(list), max_size=2))}


def constant_cases(tier: str) -> Any:
    for i in range(len(list(Clifford))):
        yield {"what": "clifford", "i": i}
    for s in "IXYZ":
        for u in range(4):
            yield {"what": "pauli", "s": s, "u": u}
    for e in ("Axis", "Plane", "Sign", "ComplexUnit"):
        yield {"what": "enum", "e": e}
    for a in "XYZ":
        for sg in (0, 1):
            yield {"what": "pm", "a": a, "s": sg}
    import itertools

    for n in range(1, 4):
        for w in itertools.product("IXYZ", repeat=n):
            for sg in (1, -1):
                yield {"what": "string", "w": "".join(w), "s": sg}
    yield {"what": "basic"}
    yield {"what": "affine"}


def constant_oracle(case: Any, info: Info) -> None:
    info.nt()
    info.label(case["what"])
    match case["what"]:
        case "clifford":
            c = list(Clifford)[case["i"]]
            check(rebuild(c) is c, lambda: f"{c!r} denotes another gate")
            # the printed name: a root of the gate named
            label = str(c)
            g = np.asarray(c.matrix)
            simple = {"I": ref.I2, "X": ref.BASIS1["X"], "Y": ref.BASIS1["Y"], "Z": ref.BASIS1["Z"], "H": ref.BASIS1["H"], "S": ref.BASIS1["S"], "Sdagger": ref.BASIS1["S"].conj()}
            if label in simple:
                check(ref.same_up_to_phase(g, simple[label]), f"{c!r} is printed as {label}")
            else:
                m = re.fullmatch(r"\\sqrt\{-?i?([IXYZ])\}|([IXYZ])\^\{1/3\}", label)
                check(m is not None, f"{c!r} is printed as {label}")
                base = simple[m[1] or m[2]]
                k = 2 if m[1] else 3
                check(ref.same_up_to_phase(np.linalg.matrix_power(g, k), base) and not ref.same_up_to_phase(g, base), f"{c!r} is printed as {label}")
        case "pauli":
            p = Pauli(getattr(Axis, case["s"], None) or Pauli.I.symbol, list(ComplexUnit)[case["u"]])
            q = rebuild(p)
            check(same(p, q), lambda: f"{p!r} is rebuilt as {q!r}")
            r = eval(str(p), {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z})  # noqa: S307
            check(same(p, r), lambda: f"{p} is rebuilt as {r!r}")
        case "enum":
            for x in SCOPE[case["e"]]:
                check(rebuild(x) is x, lambda: f"{x!r} is rebuilt as something else")  # noqa: B023
        case "pm":
            m = PauliMeasurement(Axis[case["a"]], Sign.MINUS if case["s"] else Sign.PLUS)
            check(same(rebuild(m), m) and str(m) == "+-"[case["s"]] + case["a"], lambda: f"{m!r}, {m}")
        case "string":
            p = PauliString(dim=len(case["w"]), axes={i: Axis[c] for i, c in enumerate(case["w"]) if c != "I"}, sign=Sign.PLUS if case["s"] == 1 else Sign.MINUS)
            text = str(p)
            check(text == ("+" if case["s"] == 1 else "-") + case["w"], lambda: f"{case} is printed as {text}")
            q = PauliString.from_str(text)
            check(same(p, q), lambda: f"{text} is read back as {q!r}")
            if case["s"] == 1:
                check(same(PauliString.from_str(case["w"]), p), f"{case['w']} is read as another string")
        case "basic":
            for name in ("ZERO", "ONE", "PLUS", "MINUS", "PLUS_I", "MINUS_I"):
                s = getattr(BasicStates, name)
                check(same(rebuild(s), s), lambda: f"{s!r} is rebuilt as {rebuild(s)!r}")  # noqa: B023
        case "affine":
            for a in (1, -1, 0.5, math.pi, 1e-3, 2 * math.pi, 1.25):
                for b in (0, 1, -1, math.pi / 2, -math.pi, 1e-5):
                    e = AffineExpression(a, PARAMS[0], b)
                    for f in FORMATS:
                        for w in (0, 1):
                            text = printed(lambda o: affine_expression_to_str(e, o), f, w)  # noqa: B023
                            x, y, z = read_affine(text, f)
                            check(y == "al_pha" and isclose(x, a) and isclose(z, b), lambda: f"{e!r} is printed as {text!r}")  # noqa: B023
                    check(same(rebuild(e), e) and same(eval(str(e), dict(SCOPE)), e), lambda: f"{e!r}, {e}")  # noqa: B023, S307


# ---------------------------------------------------------------------- flows

@st.composite
def flow_cases(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from("cgp"))
    if kind == "c":
        og = draw(c19.causal_graphs(3, 4))
    else:
        og = draw(gen.gflow_graphs(max_out=3, max_meas=6, paulis=False, min_meas=0))
        og = {k: v for k, v in og.items() if k != "p"}
    og["meas"] = [[v, ["PL", m[1]]] for v, m in og["meas"]]
    if kind == "p":
        og = flowgen.relabel(draw, og, draw(st.integers(0, 3)))
    if draw(st.integers(0, 3)) == 0:
        f = {v: -v - 1 for v in og["nodes"]}
        og = {"nodes": [f[v] for v in og["nodes"]], "edges": [[f[a], f[b]] for a, b in og["edges"]], "in": [f[v] for v in og["in"]], "out": [f[v] for v in og["out"]], "meas": [[f[v], m] for v, m in og["meas"]]}
    f = flowgen.draw_flow(draw, og, kind)
    return {"og": og, "kind": kind, "flow": f, "fmt": draw(fmts), "multi": draw(st.booleans()), "way": draw(st.integers(0, 1)), "corr": draw(st.booleans())}


def flow_oracle(case: Any, info: Info) -> None:
    og = conv.opengraph(case["og"])
    cf = {v: set(s) for v, s in case["flow"][0]}
    layers = [set(x) for x in case["flow"][1]]
    cls = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}[case["kind"]]
    obj: Any = cls(og, cf, layers)
    parts = [(case["kind"], cf)]
    if case["corr"]:
        obj = obj.to_xzcorrections()
        parts = [("x", obj.x_corrections), ("z", obj.z_corrections)]
        layers = [set(x) for x in obj.partial_order_layers]
    fmt, multi = case["fmt"], case["multi"]
    kw = {"multiline": True} if multi else {}
    text = {"ASCII": obj.to_ascii, "LaTeX": obj.to_latex, "Unicode": obj.to_unicode}[fmt](**kw)
    lb, rb = (r"\{", r"\}") if fmt == "LaTeX" else ("{", "}")
    sep = ("\n" if multi else ", ") if fmt != "LaTeX" else (",\\\\" if multi else r", \;")
    end = ("\n" if multi else "; ") if fmt != "LaTeX" else (";\\\\" if multi else r"; \;")
    less = {"ASCII": " < ", "Unicode": " ≺ ", "LaTeX": r" \prec "}[fmt]

    def read_set(s: str) -> tuple[int, ...]:
        check(s.startswith(lb) and s.endswith(rb), lambda: f"{s!r} in {text!r}")
        body = s[len(lb) : -len(rb)]
        return tuple(sorted(int(x) for x in body.split(", "))) if body else ()

    rest = text
    for name, f in parts:
        items = []
        for i in range(len(f)):
            if i:
                check(rest.startswith(sep), lambda: f"separator {sep!r} expected at {rest!r} in {text!r}")  # noqa: B023
                rest = rest[len(sep) :]
            m = re.match(rf"{name}\((-?\d+)\) = ({re.escape(lb)}[-\d, ]*{re.escape(rb)})", rest)
            check(m is not None, lambda: f"{name}(...) expected at {rest!r} in {text!r}")  # noqa: B023
            items.append((int(m[1]), read_set(m[2])))
            rest = rest[m.end() :]
        check(sorted(items) == sorted((v, tuple(sorted(s))) for v, s in f.items()), lambda: f"{f} is printed as {items} in {text!r}")  # noqa: B023
        check(rest.startswith(end), lambda: f"{end!r} expected at {rest!r} in {text!r}")  # noqa: B023
        rest = rest[len(end) :]
    got = [set(read_set(s)) for s in rest.split(less)] if rest else []
    check(got == layers[::-1], lambda: f"layers {layers} are printed as {rest!r}")
    if not multi and fmt == "ASCII":
        check(str(obj) == text, "str differs from to_ascii")
    info.nt(len(cf) > 1)
    info.label(case["kind"], fmt, "corrections" if case["corr"] else "flow")


@st.composite
def eval_cases(draw: Any) -> dict[str, Any]:
    return draw(pattern_cases())


SUBS = [
    Sub("angles", angle_cases, angle_oracle, 4000, 100000, shards=4, rule="non-zero angle"),
    Sub("numbers", number_cases, number_oracle, 6000, 200000, shards=8, rule="non-zero number"),
    Sub("state vectors", state_cases, sv_oracle, 4000, 100000, shards=8, rule="several terms"),
    Sub("density matrices", dm_cases, dm_oracle, 2000, 50000, shards=8, rule="several non-zero entries"),
    Sub("patterns", pattern_cases, pattern_oracle, 4000, 100000, shards=8, rule="several commands"),
    Sub("evaluable patterns", eval_cases, eval_oracle, 2000, 50000, shards=4, rule="several commands"),
    Sub("circuits", gates_cases, gates_oracle, 2000, 50000, shards=4, rule="several instructions"),
    Sub("constants", lambda: st.sampled_from(list(constant_cases("quick"))), constant_oracle, 300, 300, shards=1, enumerate=constant_cases),
    Sub("flows", flow_cases, flow_oracle, 3000, 60000, shards=8, rule="several measured nodes"),
    Sub("large patterns", lambda: pattern_cases(large=True), pattern_oracle, 200, 5000, shards=4, rule="several commands (40-150)"),
]
