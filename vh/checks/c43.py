"""C43: Clifford computations on many qubits keep their stabilizers through every transformation and conversion.

Random Clifford circuits (up to 24 qubits, up to 300 nodes once transpiled), and composed ones, go through a random chain of transpilations, pattern passes,
open graphs, flows, corrections and extracted circuits.  After every step the stabilizer group of the map (inputs entangled
with reference qubits) on random branches, computed on a tableau, must be that of the circuit.
"""
from __future__ import annotations

import random
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix import Circuit, command
from graphix.flow.exceptions import FlowError
from graphix.opengraph import OpenGraphError
from graphix.optimization import StandardizedPattern
from graphix.pattern import Pattern
from graphix.states import BasicStates
from graphix.transpiler import instructions_to_jcz, transpile_swaps
from vh import conv, ref, stab
from vh.checks import c09
from vh.core import Discard, HarnessError, Info, Sub, check

GATES = ["H", "S", "X", "Y", "Z", "I", "CNOT", "CNOT", "CNOT", "CZ", "CZ", "SWAP", "RX", "RY", "RZ", "RZZ", "J"]
PASSES = [p for p in c09.PASSES if p not in ("copy", "compose_id")]
MAX_MEAS = 90  # for flows


def gates(r: random.Random, w: int, size: int) -> list[list[Any]]:
    out: list[list[Any]] = []
    near = r.random() < 0.5
    for _ in range(size):
        g = r.choice(GATES)
        q = r.randrange(w)
        if g in ("CNOT", "CZ", "SWAP", "RZZ"):
            if w < 2:
                continue
            t = (q + 1) % w if near else r.choice([x for x in range(w) if x != q])
            out.append([g, q, t, *([r.randint(-3, 4) / 2] if g == "RZZ" else [])])
        elif g in ("RX", "RY", "RZ", "J"):
            out.append([g, q, r.randint(-3, 4) / 2])
        else:
            out.append([g, q])
    return out


def conjugate(t: stab.Stab, ops: list[list[Any]], qubit: Any) -> None:
    """The operations of a circuit, on the nodes given by qubit."""
    h = ref.BASIS1["H"]

    def cnot(a: int, b: int) -> None:
        t.op1(b, h)
        t.cz(a, b)
        t.op1(b, h)

    for o in ops:
        a = qubit(o[1])
        if o[0] in ("CNOT", "CZ", "SWAP", "RZZ"):
            b = qubit(o[2])
            if o[0] == "CZ":
                t.cz(a, b)
            elif o[0] == "CNOT":
                cnot(a, b)
            elif o[0] == "SWAP":
                cnot(a, b)
                cnot(b, a)
                cnot(a, b)
            else:
                cnot(a, b)
                t.op1(b, ref.circuit_map(1, [["RZ", 0, o[3]]])[0])
                cnot(a, b)
        elif o[0] == "M":
            raise HarnessError("measurement")
        else:
            t.op1(a, ref.circuit_map(1, [[o[0], 0, *o[2:]]])[0])


def inputs(nodes: list[int]) -> stab.Stab:
    """The input qubits, each entangled with a reference qubit (-1, -2, ...)."""
    t = stab.Stab()
    for i, v in enumerate(nodes):
        t.add(v, ref.STATES["PLUS"])
        t.add(-1 - i, ref.STATES["PLUS"])
        t.cz(v, -1 - i)
    return t


def outputs(t: stab.Stab, nodes: list[int]) -> stab.Stab:
    """The state with the outputs named by their positions."""
    refs = {v: s for v, s in t.slot.items() if v < 0}
    if sorted(t.slot) != sorted([*refs, *nodes]):
        raise HarnessError("other outputs")
    names = {10**6 + i: t.slot[v] for i, v in enumerate(nodes)}
    t.slot = {**refs, **names}
    return t


def run(d: dict[str, Any], r: random.Random) -> stab.Stab:
    t = inputs(d["in"])
    out = dict(d.get("results", {}))
    for c in d["cmds"]:
        if c[0] == "M":
            out[c[1]] = r.randrange(2)
            before = t.copy()
            ref.step(t, c, out)  # type: ignore[arg-type]
            if t.norm2() == 0:
                t = before
                out[c[1]] ^= 1
                ref.step(t, c, out)  # type: ignore[arg-type]
                check(t.norm2() > 0, f"both outcomes of {c} are impossible")
        else:
            ref.step(t, c, out)  # type: ignore[arg-type]
    return outputs(t, d["out"])


class Chain:
    def __init__(self, case: Any, info: Info) -> None:
        self.r = random.Random(case["seed"])
        self.info = info
        w = case["w"]
        ops = gates(self.r, w, case["ops"])
        self.want = inputs(list(range(w)))
        conjugate(self.want, ops, lambda q: q)
        self.want = outputs(self.want, list(range(w)))
        self.w = w
        self.done: list[str] = []
        self.x: Any = conv.circuit({"w": w, "ops": ops})
        self.ops = ops

    def verify(self) -> None:
        x = self.x
        what = f"{self.ops} on {self.w} qubits, after {self.done}"
        if isinstance(x, Circuit):
            d = conv.describe_circuit(x)
            check(d["w"] == self.w, lambda: f"{what}: width {d['w']}")
            t = inputs(list(range(self.w)))
            conjugate(t, d["ops"], lambda q: q)
            check(outputs(t, list(range(self.w))).same(self.want), lambda: f"{what}: the circuit {d['ops']} has other stabilizers")
        elif isinstance(x, Pattern):
            x.check_runnability()
            d = conv.describe(x)
            check(len(d["in"]) == len(d["out"]) == self.w, lambda: f"{what}: inputs {d['in']}, outputs {d['out']}")
            for _ in range(2):
                check(run(d, self.r).same(self.want), lambda: f"{what}: the pattern has other stabilizers on some branch:\n{x!r}")

    def outs(self, perm: list[int]) -> None:
        """Output i is now what was output perm[i]."""
        old = self.want.slot
        self.want.slot = {**{v: s for v, s in old.items() if v < 0}, **{10**6 + i: old[10**6 + p] for i, p in enumerate(perm)}}

    def step(self, k: int) -> str | None:
        x, r = self.x, self.r
        if isinstance(x, Circuit):
            n = sum(len(list(instructions_to_jcz([i]))) for i in x.instruction)
            if n > 300:
                raise Discard
            name = ["transpile", "transpile", "transpile swaps", "flow", "jcz", "append"][k % 6]
            if name == "transpile":
                self.x = x.transpile(transpile_swaps=r.random() < 0.7).pattern
            elif name == "transpile swaps":
                res = transpile_swaps(x, copy=True)
                perm = res.extract_output_node_indices()
                self.x = res.circuit
                self.outs([perm.index(i) for i in range(self.w)])
            elif name == "flow":
                self.x = x.transpile_to_causalflow().flow
            elif name == "jcz":
                self.x = Circuit(self.w, instr=list(instructions_to_jcz(x.instruction)))
            else:
                more = gates(r, self.w, r.randint(1, 6))
                y = Circuit(self.w, instr=list(x.instruction))
                y.extend(conv.circuit({"w": self.w, "ops": more}).instruction)
                self.x = y
                conjugate(self.want, more, lambda q: 10**6 + q)
            return name
        if isinstance(x, Pattern):
            return self.pattern_step(x, k)
        kind = type(x).__name__
        if kind == "OpenGraph":
            name = ["to_pauliflow", "to_gflow", "to_causalflow", "to_pattern"][k % 4]
            if name == "to_pattern":
                try:
                    self.x = x.to_pattern()
                except OpenGraphError:
                    return None
            else:
                y = x if name == "to_pauliflow" else x.to_bloch()
                f = getattr(y, name + "_or_none")()
                if f is None:
                    return None
                self.x = f
            return name
        if kind == "XZCorrections":
            self.x = x.to_pattern()
            return "xz.to_pattern"
        if k % 2 == 0 and not x.og.output_cliffords:
            if not x.is_focused():
                return None
            self.x = x.extract_circuit().to_circuit()
            return "extract_circuit"
        self.x = x.to_xzcorrections()
        return "to_xzcorrections"

    def pattern_step(self, p: Pattern, k: int) -> str | None:
        r = self.r
        flow = [*["to_opengraph", "to_xzcorrections", "to_pauliflow", "to_pauliflow", "to_causalflow", "to_gflow"] * 2, "compose"]
        name = r.choice(flow if k % 5 < 2 else PASSES)
        if name in PASSES:
            if name == "cliffords":
                if len(p.nodes()) > 250:
                    return None
                self.x = p.remove_local_clifford_commands(copy=True)
                check(all(c.kind != command.CommandKind.C for c in self.x), "Clifford commands remain")
                return name
            h = c09.History({"in": [], "out": [], "cmds": []}, [], self.info)
            h.p, h.perm = p, list(range(self.w))
            if not h.apply(name, r.randrange(100)):
                return None
            h.check_kept(name)
            self.x = h.p
            self.outs(h.perm)
            return name
        if name == "compose":
            if any(c.kind == command.CommandKind.C for c in p):  # what comes after them may not commute with them
                return None
            more = gates(r, self.w, r.randint(1, 6))
            q = conv.circuit({"w": self.w, "ops": more}).transpile().pattern
            self.x, _ = p.compose(q, dict(zip(q.input_nodes, p.output_nodes)))
            conjugate(self.want, more, lambda i: 10**6 + i)
            outs = self.x.output_nodes
            check(len(outs) == self.w, lambda: f"outputs of the composition: {outs}")
            return name
        if any(c.kind == command.CommandKind.N and c.state != BasicStates.PLUS for c in p) or any(c.kind == command.CommandKind.C for c in p) or sum(c.kind == command.CommandKind.M for c in p) > MAX_MEAS:
            return None
        if name in ("to_gflow", "to_causalflow"):
            p = p.to_bloch()
        try:
            self.x = getattr(p, name)()
        except FlowError:
            return None
        return name


def oracle(case: Any, info: Info) -> None:
    c = Chain(case, info)
    for k in case["steps"]:
        name = c.step(k)
        if name is None:
            continue
        c.done.append(name)
        c.verify()
    # what is not a pattern or a circuit is read through its pattern
    for _ in range(3):
        if isinstance(c.x, (Circuit, Pattern)):
            break
        try:
            c.x = c.x.to_xzcorrections() if hasattr(c.x, "to_xzcorrections") else c.x.to_pattern()
        except OpenGraphError:
            break
        c.done.append("finally")
        c.verify()
    info.label(*(f"op:{o}" for o in set(c.done)), f"{c.w // 6 * 6}-{c.w // 6 * 6 + 5} qubits")
    info.nt(len(c.done) >= 3 and c.w >= 6)


def cases() -> Any:
    return st.fixed_dictionaries({"seed": st.integers(0, 2**32), "w": st.integers(1, 24), "ops": st.integers(0, 60), "steps": st.lists(st.integers(0, 59), min_size=2, max_size=14)})



def deep(case: Any, info: Info) -> None:
    """A deep circuit, its pattern with all its measurements in Pauli bases, the focused flow and the extracted circuit."""
    c = Chain(case, info)
    r = c.r
    c.x = c.x.transpile(transpile_swaps=r.random() < 0.5).pattern
    check(len(c.x.output_nodes) == c.w, lambda: f"outputs {c.x.output_nodes}")
    c.done.append("transpile")
    if r.random() < 0.3:
        c.x = c.x.infer_pauli_measurements(copy=True).remove_pauli_measurements(copy=True)
        c.done.append("remove_pauli_measurements")
        c.verify()
        if any(k.kind == command.CommandKind.C or k.kind == command.CommandKind.N and k.state != BasicStates.PLUS for k in c.x):
            info.label("removed")
            info.nt(c.w >= 4)
            return
    c.x = c.x.infer_pauli_measurements(copy=True)
    f = c.x.to_opengraph().to_pauliflow()
    if r.random() < 0.5:
        c.x = f.to_xzcorrections().to_pattern()
        c.done += ["to_pauliflow", "to_pattern"]
        c.verify()
    check(f.is_focused(), lambda: f"{c.ops}: the flow of the pattern is not focused")
    ys = max((len(set(v) & f.og.odd_neighbors(v)) for v in f.correction_function.values()), default=0)
    c.x = f.extract_circuit().to_circuit()
    c.done.append("extract_circuit")
    c.verify()
    info.label("many Y operators" if ys >= 8 else "few Y operators", f"{c.w // 6 * 6}-{c.w // 6 * 6 + 5} qubits")
    info.nt(ys >= 4)


def deep_cases() -> Any:
    return st.fixed_dictionaries({"seed": st.integers(0, 2**32), "w": st.integers(1, 20), "ops": st.one_of(st.integers(0, 60), st.integers(60, 130))})


SUBS = [
    Sub("chains", cases, oracle, 1600, 40000, shards=8, rule="at least three steps on at least six qubits"),
    Sub("deep", deep_cases, deep, 500, 20000, shards=8, rule="a correction set with at least four Y operators"),
]
