"""C30: exported OpenQASM 3 programs run by an independent interpreter, against the exported object.

The text is parsed with the reference OpenQASM grammar and executed gate by gate with the definitions of the standard
library on every prescribed branch; states and branch probabilities are compared with a dense simulation of the circuit
or pattern.  Circuits are also read back with graphix-qasm-parser.  Requests that cannot be expressed must be refused.
"""
from __future__ import annotations

import math
import pathlib
import tempfile
from typing import Any

import numpy as np
import openqasm3
from graphix_qasm_parser import OpenQASMParser
from hypothesis import strategies as st
from openqasm3 import ast

from graphix import Circuit, Pattern, command
from graphix.fundamentals import Axis
from graphix.measurements import Measurement
from graphix.optimization import single_qubit_domains
from graphix.parameter import Placeholder
from graphix.qasm3_exporter import angle_to_qasm3, circuit_to_qasm3, circuit_to_qasm3_lines, pattern_to_qasm3, pattern_to_qasm3_lines
from graphix.states import BasicStates
from vh import big, conv, gen, ref
from vh.core import Fail, Info, Sub, check
from vh.util import raises

I2 = np.eye(2, dtype=complex)
X, Y, Z, H = (ref.BASIS1[k] for k in "XYZH")
S = np.diag([1, 1j])
T = np.diag([1, np.exp(0.25j * math.pi)])


def rot(p: np.ndarray, t: float) -> np.ndarray:
    return math.cos(t / 2) * I2 - 1j * math.sin(t / 2) * p


def ctrl(m: np.ndarray) -> np.ndarray:
    d = m.shape[0]
    out = np.eye(2 * d, dtype=complex)
    out[d:, d:] = m
    return out


SWAP = np.eye(4)[[0, 2, 1, 3]]
SX = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2
STDGATES: dict[str, tuple[int, Any]] = {
    "id": (0, lambda: I2), "x": (0, lambda: X), "y": (0, lambda: Y), "z": (0, lambda: Z), "h": (0, lambda: H), "s": (0, lambda: S), "sdg": (0, lambda: S.conj()), "t": (0, lambda: T), "tdg": (0, lambda: T.conj()), "sx": (0, lambda: SX),
    "rx": (1, lambda t: rot(X, t)), "ry": (1, lambda t: rot(Y, t)), "rz": (1, lambda t: rot(Z, t)), "p": (1, lambda t: np.diag([1, np.exp(1j * t)])),
    "cx": (0, lambda: ctrl(X)), "cy": (0, lambda: ctrl(Y)), "cz": (0, lambda: ctrl(Z)), "ch": (0, lambda: ctrl(H)), "swap": (0, lambda: SWAP), "ccx": (0, lambda: ctrl(ctrl(X))),
    "crx": (1, lambda t: ctrl(rot(X, t))), "cry": (1, lambda t: ctrl(rot(Y, t))), "crz": (1, lambda t: ctrl(rot(Z, t))), "cp": (1, lambda t: ctrl(np.diag([1, np.exp(1j * t)]))), "cswap": (0, lambda: ctrl(SWAP)),
}


class Machine:
    """Executes a parsed program; outcomes gives the value every bit is to be measured to."""

    def __init__(self, outcomes: dict[str, int], crz_as_rzz: bool = False, columns: dict[str, Any] | None = None) -> None:
        self.want = outcomes
        self.crz_as_rzz = crz_as_rzz
        self.reg = ref.Reg()
        self.reg.t = np.ones((1,), dtype=complex)
        self.ids: dict[str, int] = {}
        self.sizes: dict[str, int] = {}
        self.bits: dict[str, int | None] = {}
        self.bit_sizes: dict[str, int] = {}
        self.order: list[str] = []
        self.xor = False
        self.columns = columns

    def qubit(self, name: str) -> None:
        if name in self.ids:
            raise Fail(f"qubit {name} is declared twice")
        self.ids[name] = len(self.ids)
        self.reg.add(self.ids[name], ref.STATES["ZERO"])
        self.order.append(name)

    def name(self, q: Any, sizes: dict[str, int], kind: str) -> str:
        if isinstance(q, ast.IndexedIdentifier):
            ix = q.indices
            if len(ix) != 1 or len(ix[0]) != 1 or not isinstance(ix[0][0], ast.IntegerLiteral):
                raise Fail("unexpected index")
            k = ix[0][0].value
            if q.name.name not in sizes or not 0 <= k < sizes[q.name.name]:
                raise Fail(f"{kind} {q.name.name}[{k}] is not declared")
            return f"{q.name.name}[{k}]"
        if not isinstance(q, ast.Identifier):
            raise Fail(f"unexpected operand {q}")
        return q.name

    def number(self, e: Any) -> float:
        if isinstance(e, (ast.IntegerLiteral, ast.FloatLiteral)):
            return e.value
        if isinstance(e, ast.Identifier) and e.name in ("pi", "π"):
            return math.pi
        if isinstance(e, ast.UnaryExpression) and e.op.name == "-":
            return -self.number(e.expression)
        if isinstance(e, ast.BinaryExpression):
            a, b = self.number(e.lhs), self.number(e.rhs)
            if e.op.name == "*":
                return a * b
            if e.op.name == "/":
                if isinstance(a, int) and isinstance(b, int):
                    raise Fail("quotient of two integers: integer division in OpenQASM")
                return a / b
            if e.op.name == "+":
                return a + b
            if e.op.name == "-":
                return a - b
        raise Fail(f"unexpected expression {e}")

    def truth(self, e: Any) -> int:
        if isinstance(e, (ast.Identifier, ast.IndexExpression)):
            v = self.bits.get(e.name if isinstance(e, ast.Identifier) else "?")
            if v is None:
                raise Fail(f"bit {e} is read before it is measured")
            return v
        if isinstance(e, ast.BinaryExpression) and e.op.name == "^":
            self.xor = True
            return self.truth(e.lhs) ^ self.truth(e.rhs)
        raise Fail(f"unexpected condition {e}")

    def run(self, statements: Any) -> None:
        for s in statements:
            if isinstance(s, ast.Include):
                if s.filename != "stdgates.inc":
                    raise Fail(f"unexpected include {s.filename}")
            elif isinstance(s, ast.QubitDeclaration):
                if s.size is None:
                    self.qubit(s.qubit.name)
                else:
                    self.sizes[s.qubit.name] = s.size.value
                    for i in range(s.size.value):
                        self.qubit(f"{s.qubit.name}[{i}]")
            elif isinstance(s, ast.ClassicalDeclaration):
                if not isinstance(s.type, ast.BitType) or s.init_expression is not None:
                    raise Fail("unexpected declaration")
                names = [s.identifier.name]
                if s.type.size is not None:
                    self.bit_sizes[s.identifier.name] = s.type.size.value
                    names = [f"{s.identifier.name}[{i}]" for i in range(s.type.size.value)]
                for b in names:
                    if b in self.bits:
                        raise Fail(f"bit {b} is declared twice")
                    self.bits[b] = None
            elif isinstance(s, ast.QuantumGate):
                g = s.name.name
                if g not in STDGATES or s.modifiers:
                    raise Fail(f"{g} is not a gate of stdgates.inc")
                n, f = STDGATES[g]
                if len(s.arguments) != n:
                    raise Fail(f"{g} with {len(s.arguments)} parameters")
                m = f(*(self.number(a) for a in s.arguments))
                if g == "crz" and self.crz_as_rzz:
                    m = ref.expm_pauli(np.kron(Z, Z), self.number(s.arguments[0]))
                qs = [self.name(q, self.sizes, "qubit") for q in s.qubits]
                for q in qs:
                    if q not in self.ids:
                        raise Fail(f"qubit {q} is not declared")
                if len(set(qs)) != len(qs) or m.shape[0] != 2 ** len(qs):
                    raise Fail(f"{g} on {qs}")
                self.reg.op([self.ids[q] for q in qs], m)
            elif isinstance(s, ast.QuantumMeasurementStatement):
                b = self.name(s.target, self.bit_sizes, "bit")
                q = self.name(s.measure.qubit, self.sizes, "qubit")
                if b not in self.bits or q not in self.ids:
                    raise Fail(f"{b} = measure {q}: not declared")
                o = self.want[b]
                self.bits[b] = o
                self.reg.op1(self.ids[q], np.diag([1 - o, o]))
            elif isinstance(s, ast.BranchingStatement):
                if self.truth(s.condition):
                    self.run(s.if_block)
                else:
                    self.run(s.else_block)
            else:
                raise Fail(f"unexpected statement {s}")


def parse(text: str) -> Any:
    try:
        prog = openqasm3.parse(text)
    except Exception as e:  # noqa: BLE001
        raise Fail(f"not an OpenQASM 3 program ({e!r}):\n{text}") from e
    check(prog.version is not None and prog.version.startswith("3"), "no OpenQASM version")
    return prog


# -------------------------------------------------------------------- circuits

@st.composite
def circuit_cases(draw: Any, large: bool = False) -> dict[str, Any]:
    return {"c": draw(big.seeded(big.circuit, 10, 40, max_width=6, measure=2)) if large else draw(gen.circuits(max_width=4, max_ops=9, measure=draw(st.booleans()), pauli_bias=draw(st.booleans()))), "psi": draw(st.integers(0, 2**31)), "picks": draw(gen.picks()), "transpile": draw(st.integers(0, 3)) > 0}


def circuit_branch(c: Any, prog: Any, bits: dict[int, int], psi: np.ndarray, crz: bool) -> tuple[np.ndarray, np.ndarray, Machine]:
    m = Machine({f"b[{q}]": o for q, o in bits.items()}, crz)
    decl = [s for s in prog.statements if isinstance(s, (ast.QubitDeclaration, ast.ClassicalDeclaration, ast.Include))]
    m.run(decl)
    check(m.order == [f"q[{i}]" for i in range(c["w"])], lambda: f"declared qubits {m.order} for {c['w']} qubits")
    m.reg = ref.Reg.from_vec(list(range(c["w"])), psi)
    m.run([s for s in prog.statements if not any(s is d for d in decl)])
    for q, o in bits.items():
        m.reg.bra(q, ref.STATES["ONE" if o else "ZERO"])
    rest = sorted(m.reg.nodes)
    want, order = ref.circuit_map(c["w"], c["ops"], [bits[op[1]] for op in c["ops"] if op[0] == "M"], psi)
    return m.reg.matrix(rest)[:, 0], want[:, 0], m


def circuit_oracle(case: Any, info: Info) -> None:
    c = case["c"]
    q = conv.circuit(c)
    before = conv.describe_circuit(q)
    plain = all(op[0] != "J" and (op[0] != "M" or op[2] == "Z") for op in c["ops"])
    if case["transpile"]:
        text = circuit_to_qasm3(q)
    elif plain:
        text = circuit_to_qasm3(q, transpile=False)
        info.label("no transpilation")
    else:
        check(raises(ValueError, lambda: circuit_to_qasm3(q, transpile=False)) is not None, "J gates or measurements along other axes than Z exported without transpilation")
        info.label("refused")
        info.nt()
        return
    check(text == "\n".join(circuit_to_qasm3_lines(q, transpile=case["transpile"])), "lines and text differ")
    check(conv.describe_circuit(q) == before, "export changed the circuit")
    prog = parse(text)
    rng = np.random.default_rng(case["psi"])
    psi = rng.normal(size=2 ** c["w"]) + 1j * rng.normal(size=2 ** c["w"])
    psi /= np.linalg.norm(psi)
    ms = [op[1] for op in c["ops"] if op[0] == "M"]
    for bits in ref.branch_list(ms, 2, case["picks"]):
        got, want, _ = circuit_branch(c, prog, bits, psi, False)
        info.extra += 1
        if not (abs(np.linalg.norm(got) - np.linalg.norm(want)) < 1e-7 and (np.linalg.norm(want) < 1e-7 or ref.same_up_to_phase(got / np.linalg.norm(got), want / np.linalg.norm(want), 1e-6))):
            err = Fail(f"branch {bits}: the program\n{text}\nends in\n{np.round(got, 4).tolist()}\nthe circuit in\n{np.round(want, 4).tolist()}")
            if any(op[0] == "RZZ" for op in c["ops"]):
                alt, _, _ = circuit_branch(c, prog, bits, psi, True)
                if ref.same_up_to_phase(alt, want, 1e-6):
                    info.finding("rzz-as-crz", err)
                    continue
            raise err
    if not ms:
        back = OpenQASMParser().parse_str(text)
        got, _ = ref.circuit_map(c["w"], conv.describe_circuit(back)["ops"], vec=psi)
        want, _ = ref.circuit_map(c["w"], c["ops"], vec=psi)
        check(back.width == c["w"] and ref.same_up_to_phase(got[:, 0], want[:, 0], 1e-6), lambda: f"read back, the program\n{text}\nis a circuit with another action")
        info.label("read back")
    info.nt(len(c["ops"]) > 0)
    info.label(*{op[0] for op in c["ops"]})


# -------------------------------------------------------------------- patterns

NAMES = {"ZERO": BasicStates.ZERO, "PLUS": BasicStates.PLUS}


@st.composite
def pattern_cases(draw: Any) -> dict[str, Any]:
    if draw(st.booleans()):
        pat = draw(gen.soups(max_active=4, max_total=7, max_steps=20, states=False, edge_safe=False))
    else:
        pat = draw(gen.det_patterns(max_meas=5))
    cmds = [["N", c[1], draw(st.sampled_from(["PLUS", "ZERO"]))] if c[0] == "N" and draw(st.integers(0, 2)) == 0 else c for c in pat["cmds"]]
    pat = {**pat, "cmds": cmds}
    used = set(pat["in"]) | {c[1] for c in cmds if c[0] == "N"}
    low = min([0, *used])
    return {"pat": shift(pat, -low), "form": draw(st.sampled_from(["default", "single", "dict"])), "states": [draw(st.sampled_from(sorted(NAMES))) for _ in pat["in"]], "picks": draw(gen.picks()), "single": draw(st.integers(0, 2)) == 0, "file": draw(st.integers(0, 9)) == 0}


def shift(d: Any, k: int) -> Any:
    """Labels have to be non-negative to be part of identifiers."""
    if k == 0:
        return d
    def cmd(c: Any) -> Any:
        if c[0] == "E":
            return ["E", c[1] + k, c[2] + k]
        out = [c[0], c[1] + k, *c[2:]]
        if c[0] in "XZ":
            out[2] = [v + k for v in c[2]]
        if c[0] == "M":
            out[3], out[4] = [v + k for v in c[3]], [v + k for v in c[4]]
        return out
    return {"in": [v + k for v in d["in"]], "cmds": [cmd(c) for c in d["cmds"]], "out": [v + k for v in d["out"]]}


def pattern_oracle(case: Any, info: Info) -> None:
    p = conv.pattern(case["pat"])
    if case["single"]:
        p = single_qubit_domains(p)
        info.label("single-qubit domains")
    d = conv.describe(p)
    states = {"default": ["PLUS"] * len(d["in"]), "single": [(case["states"] or ["ZERO"])[0]] * len(d["in"]), "dict": case["states"]}[case["form"]]
    arg = {"default": {}, "single": {"input_state": NAMES[(case["states"] or ["ZERO"])[0]]}, "dict": {"input_state": {v: NAMES[s] for v, s in zip(d["in"], states)}}}[case["form"]]
    psi = ref.kron_all([ref.STATES[s].reshape(-1, 1) for s in states]).reshape(-1)
    before = conv.freeze(p)
    text = pattern_to_qasm3(p, **arg)
    check("".join(pattern_to_qasm3_lines(p, **arg)) == text, "lines and text differ")
    if case["file"]:
        with tempfile.TemporaryDirectory() as tmp:
            for name, out in (("a.qasm", "a.qasm"), ("b", "b.qasm"), ("c.txt", "c.qasm")):
                p.to_qasm3(pathlib.Path(tmp) / name, **arg)
                check((pathlib.Path(tmp) / out).read_text(encoding="utf-8") == text, f"to_qasm3 to {name}")
        info.label("file")
    check(conv.freeze(p) == before, "export changed the pattern")
    prog = parse(text)
    ms = ref.measured(d["cmds"])
    for want in ref.branch_list(ms, 2, case["picks"]):
        m = Machine({f"c{q}": o for q, o in want.items()})
        try:
            m.run(prog.statements)
        except Fail as e:
            raise Fail(f"{e}\nin the program\n{text}") from e
        info.extra += 1
        check(sorted(m.order) == sorted(f"q{v}" for v in [*d["in"], *(c[1] for c in d["cmds"] if c[0] == "N")]), lambda: f"declared qubits {m.order}")  # noqa: B023
        for q, o in want.items():
            m.reg.bra(m.ids[f"q{q}"], ref.STATES["ONE" if o else "ZERO"])
        got = m.reg.matrix([m.ids[f"q{v}"] for v in d["out"]])[:, 0]
        r = ref.Reg.from_vec(d["in"], psi)
        final = ref.run_branch(d, want, r)[:, 0]
        # the reference projects on half the bra of the outcome: compare norms and directions
        ng, nw = np.linalg.norm(got), np.linalg.norm(final)
        check(abs(ng - nw) < 1e-7, lambda: f"branch {want} has amplitude {ng} in the program\n{text}\nand {nw} in the pattern")  # noqa: B023
        check(nw < 1e-7 or ref.same_up_to_phase(got / ng, final / nw, 1e-6), lambda: f"branch {want}: the program\n{text}\nends in\n{np.round(got, 4).tolist()}\nthe pattern in\n{np.round(final, 4).tolist()}")  # noqa: B023
        if m.xor:
            check(not case["single"], lambda: f"exclusive or after single_qubit_domains:\n{text}")
            info.label("exclusive or")
    info.nt(len(ms) > 0)
    info.label(case["form"], *{c[0] for c in d["cmds"]}, *{"M" + c[2][1] if c[2][0] == "B" else "MP" for c in d["cmds"] if c[0] == "M"})


# ---------------------------------------------------------------------- angles

def angle_oracle(case: Any, info: Info) -> None:
    a = case["n"] / case["d"] + case["eps"]
    text = angle_to_qasm3(a)
    prog = parse(f'OPENQASM 3;\ninclude "stdgates.inc";\nqubit q;\nrx({text}) q;\n')
    g = prog.statements[-1]
    got = Machine({}).number(g.arguments[0]) / math.pi
    check(abs(got - a) <= 2e-9 * max(1.0, abs(a)), lambda: f"angle {a!r} is exported as {text}, which is {got!r}")
    info.nt("pi" not in text or "/" in text)
    info.label("fraction" if "/" in text else "literal" if "pi" not in text else "multiple")


@st.composite
def angle_cases(draw: Any) -> dict[str, Any]:
    return {"n": draw(st.integers(-4000, 4000)), "d": draw(st.one_of(st.sampled_from([1, 2, 3, 4, 8, 16, 1000, 1001, 999, 7]), st.integers(1, 2000))), "eps": draw(st.sampled_from([0, 0, 0, 1e-10, 1e-8, -1e-7, 1e-6, 1e-5, 1e-12, 0.1234567]))}


# ------------------------------------------------------------------ refusals

def refusal_oracle(case: Any, info: Info) -> None:
    info.nt()
    what = case["what"]
    info.label(what)
    al = Placeholder("alpha")

    def circ(f: Any) -> Circuit:
        c = Circuit(2)
        f(c)
        return c

    sym = Pattern(input_nodes=[0], cmds=[command.N(1), command.E((0, 1)), command.M(0, Measurement.XY(al)), command.X(1, {0})], output_nodes=[1])
    fns: dict[str, tuple[Any, Any]] = {
        "symbolic rx": (TypeError, lambda: circuit_to_qasm3(circ(lambda c: c.rx(0, al)))),
        "symbolic rzz": (TypeError, lambda: circuit_to_qasm3(circ(lambda c: c.rzz(0, 1, al)))),
        "symbolic j": (TypeError, lambda: circuit_to_qasm3(circ(lambda c: c.j(0, al)))),
        "symbolic measurement": (TypeError, lambda: pattern_to_qasm3(sym)),
        "j": (ValueError, lambda: circuit_to_qasm3(circ(lambda c: c.j(0, 0.25)), transpile=False)),
        "x axis": (ValueError, lambda: circuit_to_qasm3(circ(lambda c: c.m(0, Axis.X)), transpile=False)),
        "y axis": (ValueError, lambda: circuit_to_qasm3(circ(lambda c: c.m(0, Axis.Y)), transpile=False)),
        "tick": (ValueError, lambda: pattern_to_qasm3(Pattern(input_nodes=[0], cmds=[command.T()]))),
        "signal": (ValueError, lambda: pattern_to_qasm3(Pattern(input_nodes=[0], cmds=[command.N(1), command.M(0), command.S(0, {0})], output_nodes=[1]))),
        "missing input": (KeyError, lambda: pattern_to_qasm3(Pattern(input_nodes=[0, 1]), input_state={0: BasicStates.ZERO})),
    }
    for s in ("MINUS", "ONE", "PLUS_I", "MINUS_I"):
        fns["prepared " + s] = (ValueError, lambda s=s: pattern_to_qasm3(Pattern(cmds=[command.N(0, getattr(BasicStates, s))])))
        fns["input " + s] = (ValueError, lambda s=s: pattern_to_qasm3(Pattern(input_nodes=[0]), input_state=getattr(BasicStates, s)))
    exc, fn = fns[what]
    check(raises(exc, fn) is not None, f"{what}: not refused")


REFUSALS = ["symbolic rx", "symbolic rzz", "symbolic j", "symbolic measurement", "j", "x axis", "y axis", "tick", "signal", "missing input", *(f"{a} {s}" for a in ("prepared", "input") for s in ("MINUS", "ONE", "PLUS_I", "MINUS_I"))]

SUBS = [
    Sub("circuits", circuit_cases, circuit_oracle, 3000, 60000, shards=8, rule="at least one gate"),
    Sub("patterns", pattern_cases, pattern_oracle, 3000, 60000, shards=8, rule="at least one measurement"),
    Sub("angles", angle_cases, angle_oracle, 3000, 60000, shards=2, rule="not an integer multiple of pi"),
    Sub("refusals", lambda: st.sampled_from([{"what": w} for w in REFUSALS]), refusal_oracle, 18, 18, shards=1, enumerate=lambda tier: [{"what": w} for w in REFUSALS]),
    Sub("large circuits", lambda: circuit_cases(large=True), circuit_oracle, 200, 5000, shards=4, rule="as circuits (10-40 gates)"),
]
