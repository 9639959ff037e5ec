"""C25: Pauli strings, Pauli exponentials, Clifford maps and focusing against matrices and the definitions.

Strings (valid and invalid text, arbitrary tableaux) go through every conversion and are compared with matrices; random
sequences of exponentials and random Clifford operators (images computed by multiplying matrices) are compiled and the
circuit's matrix compared (on 5-20 qubits: the images of the generators, in a tableau); the two are combined through ExtractionResult, with default and replaced passes, and with
outputs that do not fit.  Focusing is decided for arbitrary valid flows, focused flows solved for independently (with any
order and any choice of correction sets) and these with one node toggled; focused flows must extract the map of their
open graph, others must be rejected.
"""
from __future__ import annotations

import random
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix._linalg import MatGF2
from graphix.circ_ext.compilation import cm_berg_pass, pexp_ladder_pass
from graphix.circ_ext.extraction import CliffordMap, ExtractionResult, PauliExponential, PauliExponentialDAG, PauliString
from graphix.flow.core import PauliFlow
from graphix.fundamentals import Axis, Sign
from graphix.transpiler import Circuit
from vh import big, conv, flowgen, gen, ref, stab
from vh.checks import c19, c21, c24
from vh.core import Discard, HarnessError, Info, Sub, check
from vh.flowref import G, dag_generations, gf2_solve
from vh.util import raises


def reference_tableau(sign: int, ops: str) -> list[int]:
    return [int(o in "XY") for o in ops] + [int(o in "YZ") for o in ops] + [int(sign < 0)]


def make(sign: int, ops: str, order: list[int] | None = None) -> PauliString:
    """A string, its axes inserted in the given order of qubits."""
    qs = [q for q in (order or range(len(ops))) if ops[q] != "I"]
    return PauliString(len(ops), {q: Axis[ops[q]] for q in qs}, Sign.PLUS if sign > 0 else Sign.MINUS)


# ------------------------------------------------------------------ strings

@st.composite
def strings(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(["text", "text", "noise", "tab", "badtab"]))
    if kind == "text":
        return {"kind": kind, "prefix": draw(st.sampled_from(["", "+", "-"])), "ops": draw(st.text("IXYZ", max_size=6))}
    if kind == "noise":
        return {"kind": kind, "text": draw(st.text("IXYZ+-xyzi 0H", max_size=5))}
    if kind == "tab":
        n = draw(st.integers(0, 5))
        return {"kind": kind, "bits": draw(st.lists(st.integers(0, 1), min_size=2 * n + 1, max_size=2 * n + 1))}
    return {"kind": kind, "shape": draw(st.lists(st.integers(0, 4), min_size=1, max_size=3))}


def strings_oracle(case: Any, info: Info) -> None:
    info.label(case["kind"])
    if case["kind"] == "noise":
        t = case["text"]
        body = t[1:] if t[:1] in ("+", "-") else t
        if not all(c in "IXYZ" for c in body):
            info.nt()
            check(raises(ValueError, lambda: PauliString.from_str(t)) is not None, lambda: f"{t!r} accepted")
            return
        check(str(PauliString.from_str(t)) == ("-" if t[:1] == "-" else "+") + body, lambda: f"{t!r} read as {PauliString.from_str(t)}")
        return
    if case["kind"] == "badtab":
        shape = tuple(case["shape"])
        tab = MatGF2(np.zeros(shape, dtype=np.uint8))
        ok = len(shape) == 1 and shape[0] % 2 == 1
        info.nt(not ok)
        if ok:
            check(PauliString.from_tableau(tab) == PauliString(shape[0] // 2, {}), "identity tableau")
        else:
            check(raises(ValueError, lambda: PauliString.from_tableau(tab)) is not None, lambda: f"tableau of shape {shape} accepted")
        return
    if case["kind"] == "tab":
        bits = case["bits"]
        n = len(bits) // 2
        info.nt(n > 0)
        tab = MatGF2(np.array(bits, dtype=np.uint8))
        ps = PauliString.from_tableau(tab)
        check(list(tab) == bits, "from_tableau changed its argument")
        ops = "".join("IXZY"[bits[i] + 2 * bits[n + i]] for i in range(n))
        check(ps.dim == n and {q: a.name for q, a in ps.axes.items()} == {q: o for q, o in enumerate(ops) if o != "I"} and (ps.sign is Sign.MINUS) == bool(bits[-1]), lambda: f"tableau {bits} read as {ps!r}")
        check([int(x) for x in ps.to_tableau()] == bits, lambda: f"tableau {bits} comes back as {ps.to_tableau()}")
        check(str(ps) == "+-"[bits[-1]] + ops, lambda: f"str of {bits}: {ps}")
        return
    ops, sign = case["ops"], -1 if case["prefix"] == "-" else 1
    info.nt(ops.strip("I") != "")
    ps = PauliString.from_str(case["prefix"] + ops)
    check(ps == make(sign, ops), lambda: f"{case['prefix'] + ops!r} read as {ps!r}")
    check(str(ps) == ("-" if sign < 0 else "+") + ops and PauliString.from_str(str(ps)) == ps, lambda: f"{ps!r} printed as {ps}")
    tab = ps.to_tableau()
    check([int(x) for x in tab] == reference_tableau(sign, ops), lambda: f"tableau of {ps}: {tab}")
    check(PauliString.from_tableau(tab) == ps, "from_tableau does not invert to_tableau")
    check(make(sign, ops, list(range(len(ops)))[::-1]) == ps, "strings with the same content differ")


# ------------------------------------------------------------- exponentials

@st.composite
def sequences(draw: Any, n: int | None = None) -> dict[str, Any]:
    n = draw(st.integers(1, 4)) if n is None else n
    k = draw(st.integers(0, 5))
    exps = []
    for _ in range(k):
        ops = draw(st.text("IXYZ", min_size=n, max_size=n))
        a = draw(st.one_of(gen.angles(), st.sampled_from([0, 0.0, 1, -1, 0.25, 2])))
        exps.append([draw(st.sampled_from([1, -1])), ops, a, list(draw(st.permutations(range(n))))])
    names = draw(gen.labels(n + k))
    group = draw(st.lists(st.booleans(), min_size=k, max_size=k))
    return {"n": n, "exps": exps, "names": names, "group": group}


def commute(a: str, b: str) -> bool:
    return sum(x != y and x != "I" and y != "I" for x, y in zip(a, b)) % 2 == 0


def build_dag(case: Any) -> tuple[PauliExponentialDAG, np.ndarray]:
    n, names = case["n"], case["names"]
    outs, rest = names[:n], names[n:]
    layers: list[list[int]] = []  # in order of application
    u = np.eye(2**n, dtype=complex)
    for i, (sign, ops, a, _) in enumerate(case["exps"]):
        if layers and case["group"][i] and all(commute(ops, case["exps"][j][1]) for j in layers[-1]):
            layers[-1].append(i)
        else:
            layers.append([i])
        m = sign * ref.pauli_string(list(ops))
        u = (np.cos(a * np.pi) * np.eye(2**n) + 1j * np.sin(a * np.pi) * m) @ u
    pe = {rest[i]: PauliExponential(a, make(sign, ops, order)) for i, (sign, ops, a, order) in enumerate(case["exps"])}
    dag = PauliExponentialDAG(pe, [set(outs), *({rest[i] for i in x} for x in reversed(layers))], list(outs))
    return dag, u


def sequences_oracle(case: Any, info: Info) -> None:
    dag, u = build_dag(case)
    n = case["n"]
    info.nt(any(e[1].strip("I") and e[2] % 1 for e in case["exps"]))
    info.label(f"{len(case['exps'])} exponentials")
    if len(dag.partial_order_layers) - 1 < len(case["exps"]):
        info.label("commuting layer")
    before = repr(dag)
    c = Circuit(n)
    pexp_ladder_pass(dag, c)
    c24.check_circuit(c, n, u, f"ladder pass of {case['exps']}")
    check({o[0] for o in conv.describe_circuit(c)["ops"]} <= {"H", "CNOT", "RX", "RY", "RZ"}, "gates outside the documented set")
    check(repr(dag) == before, "the exponentials were changed")
    # appended to what is there
    c2 = Circuit(n)
    c2.h(0)
    c2.rz(n - 1, 0.3)
    pexp_ladder_pass(dag, c2)
    pre, _ = ref.circuit_map(n, [["H", 0], ["RZ", n - 1, 0.3]])
    c24.check_circuit(c2, n, u @ pre, "ladder pass appended to a circuit")


# ----------------------------------------------------------- Clifford maps

@st.composite
def maps(draw: Any) -> dict[str, Any]:
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 4]))
    k = draw(st.integers(0, 6 * n))
    ops = []
    for _ in range(k):
        q = draw(st.integers(0, n - 1))
        g = draw(st.sampled_from(["H", "S", "X", "Y", "Z", "CNOT", "CNOT", "CNOT", "SWAP", "CZ"]))
        if g in ("CNOT", "SWAP", "CZ"):
            if n == 1:
                continue
            ops.append([g, q, (q + draw(st.integers(1, n - 1))) % n])
        else:
            ops.append([g, q])
    seq = draw(sequences(n))
    return {"n": n, "ops": ops, "seq": seq, "swap": draw(st.booleans()), "ins": draw(gen.labels(n))}


def as_string(m: np.ndarray, n: int) -> tuple[int, str]:
    """(sign, letters) of a matrix that is a signed Pauli string."""
    # the X part is the translation, the Z part and sign are read off column by column
    row = int(np.argmax(np.abs(m[:, 0])))
    xs = [(row >> (n - 1 - q)) & 1 for q in range(n)]
    base = m[row, 0]
    zs = []
    for q in range(n):
        col = 1 << (n - 1 - q)
        zs.append(int(np.real(m[row ^ col, col] / base) < 0))
    ops = "".join("IXZY"[x + 2 * z] for x, z in zip(xs, zs))
    full = ref.pauli_string(list(ops))
    sign = float(np.real(np.vdot(full, m)) / 2**n)
    return (1 if sign > 0 else -1), ops


def maps_oracle(case: Any, info: Info) -> None:
    n = case["n"]
    u, _ = ref.circuit_map(n, case["ops"])
    images: dict[str, list[tuple[int, str]]] = {"X": [], "Z": []}
    for p in "XZ":
        for q in range(n):
            g = ref.pauli_string([p if j == q else "I" for j in range(n)])
            m = u @ g @ u.conj().T
            s, ops = as_string(m, n)
            assert np.allclose(s * ref.pauli_string(list(ops)), m)
            images[p].append((s, ops))
    outs = case["seq"]["names"][:n]
    cm = CliffordMap([make(*i) for i in images["X"]], [make(*i) for i in images["Z"]], list(case["ins"]), list(outs))
    info.nt(any(ops.strip("I") not in ("X",) for _, ops in images["X"]))
    tab = cm.to_tableau()
    check(np.asarray(tab).tolist() == [reference_tableau(*i) for p in "XZ" for i in images[p]], lambda: f"tableau of {images}: {np.asarray(tab).tolist()}")
    before = repr(cm)
    c = Circuit(n)
    cm_berg_pass(cm, c)
    c24.check_circuit(c, n, u, f"Clifford map {images}")
    check({o[0] for o in conv.describe_circuit(c)["ops"]} <= {"H", "S", "CNOT", "SWAP", "X", "Y", "Z"}, "gates outside the documented set")
    check(repr(cm) == before, "the Clifford map was changed")
    # both together
    dag, e = build_dag(case["seq"])
    er = ExtractionResult(dag, cm)
    c24.check_circuit(er.to_circuit(), n, e @ u, "Clifford map and exponentials")
    seen = []
    er.to_circuit(pexp_cp=lambda d, c: seen.append(("e", d is dag, c.width, len(c.instruction))), cm_cp=lambda m, c: (seen.append(("c", m is cm, c.width, len(c.instruction))), c.h(0))[0])  # type: ignore[func-returns-value]
    check(seen == [("c", True, n, 0), ("e", True, n, 1)], lambda: f"replaced passes called with {seen}")
    other = list(outs)
    if case["swap"] and n > 1:
        other[0], other[1] = other[1], other[0]
    else:
        other[-1] = max(case["seq"]["names"]) + 1
    bad = ExtractionResult(dag, CliffordMap(cm.x_map, cm.z_map, cm.input_nodes, other))
    check(raises(ValueError, bad.to_circuit) is not None, f"exponentials on {outs} and a Clifford map on {other} combined")
    iso = CliffordMap(cm.x_map[:-1], cm.z_map[:-1], list(case["ins"])[:-1], list(outs))
    check(raises(NotImplementedError, iso.to_tableau) is not None and raises(NotImplementedError, lambda: cm_berg_pass(iso, Circuit(n))) is not None, "isometry accepted")


# ------------------------------------------------- many qubits, by their images

def generators(n: int) -> stab.Stab:
    """The X and the Z operators of n qubits, to be conjugated."""
    t = stab.Stab()
    t.slot, t.next = {q: q for q in range(n)}, n
    t.rows = [(0, 1 << q, 0) for q in range(n)] + [(0, 0, 1 << q) for q in range(n)]
    return t


def conjugate(t: stab.Stab, ops: list[list[Any]]) -> None:
    h = ref.BASIS1["H"]
    for o in ops:
        if o[0] in ("CNOT", "CZ", "SWAP"):
            for a, b in [(o[1], o[2]), (o[2], o[1]), (o[1], o[2])] if o[0] == "SWAP" else [(o[1], o[2])]:
                for k in (0, 1, 2):
                    if k == 1:
                        t.cz(a, b)
                    elif o[0] != "CZ":
                        t.op1(b, h)
        else:
            t.op1(o[1], ref.circuit_map(1, [[o[0], 0, *o[2:]]])[0])


def row(sign: int, ops: str) -> tuple[int, int, int]:
    x = sum(1 << q for q, o in enumerate(ops) if o in "XY")
    z = sum(1 << q for q, o in enumerate(ops) if o in "YZ")
    return ((x & z).bit_count() + (2 if sign < 0 else 0)) % 4, x, z


def unrow(r: tuple[int, int, int], n: int) -> tuple[int, str]:
    p, x, z = r
    rest = (p - (x & z).bit_count()) % 4
    if rest % 2:
        raise HarnessError("not Hermitian")
    return (-1 if rest else 1), "".join("IXZY"[(x >> q & 1) + 2 * (z >> q & 1)] for q in range(n))


def exponentiate(t: stab.Stab, sign: int, ops: str, k: int) -> None:
    """Conjugation by exp(i k pi/4 P)."""
    p = row(sign, ops)
    for i, q in enumerate(t.rows):
        if stab.anti(p, q):
            if k % 2:
                t.rows[i] = stab.mul(((p[0] + (1 if k % 4 == 1 else 3)) % 4, *p[1:]), q)
            elif k % 4 == 2:
                t.rows[i] = ((q[0] + 2) % 4, *q[1:])


def wide_oracle(case: Any, info: Info) -> None:
    r = random.Random(case["seed"])
    n = case["n"]
    ops: list[list[Any]] = []
    for _ in range(case["ops"]):
        g = r.choice(["H", "S", "X", "Y", "Z", "CNOT", "CNOT", "CNOT", "SWAP", "CZ"])
        ops.append([g, *r.sample(range(n), 2)] if g in ("CNOT", "SWAP", "CZ") else [g, r.randrange(n)])
    t = generators(n)
    conjugate(t, ops)
    images = [unrow(x, n) for x in t.rows]
    names = r.sample(range(3 * (n + case["exps"])), n + case["exps"])
    outs, rest = names[:n], names[n:]
    light = r.random() < 0.5
    exps = []
    for node in rest:
        o = "".join(r.choice("IIIIIXYZ" if light else "IXYZ") for _ in range(n))
        order = list(range(n))
        r.shuffle(order)
        exps.append((node, r.choice([1, -1]), o, r.randrange(1, 8), order))
    dag = PauliExponentialDAG({node: PauliExponential(k / 4, make(s, o, order)) for node, s, o, k, order in exps}, [set(outs), *({e[0]} for e in reversed(exps))], list(outs))
    cm = CliffordMap([make(*i) for i in images[:n]], [make(*i) for i in images[n:]], r.sample(range(100), n), list(outs))
    info.nt(case["ops"] > 0 and case["exps"] > 0)
    info.label(f"{n // 4 * 4}-{n // 4 * 4 + 3} qubits")
    tab = cm.to_tableau()
    check(np.asarray(tab).tolist() == [reference_tableau(*i) for i in images], "tableau of a Clifford map")
    check([PauliString.from_tableau(MatGF2(np.asarray(x))) for x in tab] == [make(*i) for i in images], "strings of a tableau")
    check([PauliString.from_str(str(make(*i))) for i in images] == [make(*i) for i in images], "strings read from text")
    c = Circuit(n)
    cm_berg_pass(cm, c)
    got = generators(n)
    conjugate(got, conv.describe_circuit(c)["ops"])
    check(got.rows == t.rows, lambda: f"Clifford map of {ops} on {n} qubits: the circuit sends the generators to {[unrow(x, n) for x in got.rows]} instead of {images}")
    for _, s, o, k, _ in exps:
        exponentiate(t, s, o, k)
    got = generators(n)
    conjugate(got, conv.describe_circuit(ExtractionResult(dag, cm).to_circuit())["ops"])
    check(got.rows == t.rows, lambda: f"Clifford map of {ops} and exponentials {exps} on {n} qubits: the circuit sends the generators to {[unrow(x, n) for x in got.rows]} instead of {[unrow(x, n) for x in t.rows]}")


def wide() -> Any:
    return st.fixed_dictionaries({"seed": st.integers(0, 2**32), "n": st.integers(5, 20), "ops": st.integers(0, 60), "exps": st.integers(0, 6)})


# ----------------------------------------------------------------- focusing

def focus_rows(g: G, u: int) -> list[tuple[int, int]]:
    """Linear conditions of Definition 4.3 (and the condition on u itself) for the correction set of u."""
    rows = [(1 << j, 0) for j in range(g.n) if (g.ins >> j) & 1]
    for v in g.measured():
        if v == u:
            continue
        lab = g.labels[v]
        if lab in ("XZ", "YZ", "Z"):
            rows.append((1 << v, 0))
        elif lab in ("XY", "X"):
            rows.append((g.adj[v], 0))
        else:
            rows.append((g.adj[v] ^ (1 << v), 0))
    me, nb = 1 << u, g.adj[u]
    rows += {"XY": [(me, 0), (nb, 1)], "XZ": [(me, 1), (nb, 1)], "YZ": [(me, 1), (nb, 0)], "X": [(nb, 1)], "Z": [(me, 1)], "Y": [(me ^ nb, 1)]}[g.labels[u]]
    return rows


def focused(g: G, cf: dict[int, int]) -> bool:
    for u, s in cf.items():
        o = g.odd(s)
        for v in g.measured():
            if v != u:
                pv, ov = (s >> v) & 1, (o >> v) & 1
                lab = g.labels[v]
                if (lab in ("XZ", "YZ", "Z") and pv) or (lab in ("XY", "X") and ov) or (lab == "Y" and pv != ov):
                    return False
    return True


def order_of(g: G, cf: dict[int, int]) -> list[tuple[int, int]]:
    """(earlier, later) pairs a Pauli flow with these focused correction sets needs."""
    pairs = []
    for u, s in cf.items():
        o = g.odd(s)
        for v in g.measured():
            if v != u and (((s >> v) & 1 and g.labels[v] not in ("X", "Y")) or ((o >> v) & 1 and g.labels[v] not in ("Y", "Z"))):
                pairs.append((u, v))
    return pairs


def focused_flow(draw: Any, og: dict[str, Any]) -> tuple[list[list[Any]], list[list[int]]] | None:
    g = G.of(og)
    for attempt in range(2):
        cf: dict[int, int] = {}
        for u in g.measured():
            rows = focus_rows(g, u)
            sol = gf2_solve(rows)
            if sol is None:
                return None
            wish = draw(st.integers(0, g.all)) if attempt == 0 else 0
            for j in range(g.n):
                more = [*rows, (1 << j, wish >> j & 1)]
                new = gf2_solve(more)
                if new is None:
                    rows.append((1 << j, sol >> j & 1))
                else:
                    sol, rows = new, more
            cf[u] = sol
        pairs = order_of(g, cf)
        if dag_generations(pairs, g.measured()) is not None:
            break
    else:
        return None
    # any layering that respects the pairs, last nodes first
    layers = [g.unmask(g.outs)] if g.outs else []
    left = set(g.measured())
    while left:
        ready = sorted(u for u in left if not any(a == u and b in left for a, b in pairs))
        keep = draw(st.integers(1, (1 << len(ready)) - 1))
        layer = {u for i, u in enumerate(ready) if (keep >> i) & 1}
        layers.append({g.nodes[u] for u in layer})
        left -= layer
    return [[g.nodes[u], sorted(g.unmask(s))] for u, s in cf.items()], [sorted(x) for x in layers]


@st.composite
def flows(draw: Any, large: bool = False) -> dict[str, Any]:
    kind = draw(st.sampled_from(["focused", "focused", "focused", "toggled", "p", "g", "c"]))
    if large:
        og = draw(big.seeded(big.causal, 8, 30, max_wires=4) if kind == "c" else big.seeded(big.planes, 8, 25, axes=0.4 if kind != "g" else 0.0, changes=0, balanced=True))
    elif kind == "c":
        og = draw(c19.causal_graphs(3, 3))
    else:
        og = draw(gen.gflow_graphs(max_out=3, max_meas=5, paulis=False, min_meas=1))
        used = {w for _, s in og["p"] for w in s}
        cand = [v for v in og["nodes"] if v not in used]
        if draw(st.booleans()) and len(cand) >= len(og["out"]):
            og["in"] = list(draw(st.permutations(cand)))[: len(og["out"])]
        og = {k: v for k, v in og.items() if k != "p"}
        og["meas"] = [[v, ["PL", m[1]]] for v, m in og["meas"]]
        if kind not in ("g",):
            og = flowgen.relabel(draw, og, draw(st.sampled_from([0, 1, 1, 2, 3])))
    flow = focused_flow(draw, og) if kind in ("focused", "toggled") else flowgen.draw_flow(draw, og, kind)
    if flow is None:
        kind = "p"
        flow = flowgen.draw_flow(draw, og, "p")
        assert flow is not None
    cf, layers = flow
    if kind == "toggled" and cf:
        i = draw(st.integers(0, len(cf) - 1))
        w = draw(st.sampled_from([v for v in og["nodes"]]))
        cf[i] = [cf[i][0], sorted(set(cf[i][1]) ^ {w})]
    og = flowgen.bloch(draw, og)
    return {"kind": kind, "og": {**og, "cliffords": []}, "cf": cf, "layers": layers, "bare": draw(st.booleans())}


def flows_oracle(case: Any, info: Info) -> None:
    og = c21.build(case["og"])
    g = G.of(case["og"])
    cf = {v: frozenset(s) for v, s in case["cf"]}
    cls = c21.CLS.get(case["kind"], PauliFlow)
    layers = tuple(frozenset(x) for x in case["layers"])
    flow = cls(og, cf, layers)
    want = focused(g, {g.idx[v]: g.mask(s) for v, s in cf.items()})
    info.nt(bool(cf))
    got = flow.is_focused()
    check(got is want, lambda: f"{type(flow).__name__} {case['cf']} focused: {got}")
    if case["bare"] and case["kind"] not in ("g", "c"):
        bare = conv.opengraph({**case["og"], "meas": [[v, c19.lab(m[1])] for v, m in case["og"]["meas"]]})
        check(PauliFlow(bare, cf, layers).is_focused() is want, "focusing of the graph of labels")
    if not want:
        info.label("not focused")
        for what, fn in (("extraction_pauli_strings", lambda: flow.extraction_pauli_strings), ("extract_circuit", flow.extract_circuit), ("PauliExponentialDAG", lambda: PauliExponentialDAG.from_focused_flow(flow)), ("CliffordMap", lambda: CliffordMap.from_focused_flow(flow))):
            if set(case["og"]["in"]) - set(case["og"]["out"]) or what != "CliffordMap":
                check(raises(ValueError, fn) is not None, f"{what} of a flow that is not focused")
        return
    bad = g.problems("p", cf, layers)
    if bad:
        info.label("focused, not well formed")
        raise Discard
    info.label("focused")
    if any(set(x) != set(y) for x, y in zip(case["layers"], [g.unmask(x) for x in (g.find("p") or ([], {}))[0]])):
        info.label("not maximally delayed")
    n_in, n_out = len(case["og"]["in"]), len(case["og"]["out"])
    m = ref.opengraph_map(case["og"]) * 2 ** (len(cf) / 2)
    er = flow.extract_circuit()
    c24.check_extraction(er, case["og"], m, "focused flow")
    if n_in == n_out:
        info.label("unitary")
        c24.check_circuit(er.to_circuit(), n_out, m, "circuit of a focused flow")
    ps = flow.extraction_pauli_strings
    check(set(ps) == set(cf) and all(er.pexp_dag.pauli_exponentials[v].pauli_string == s for v, s in ps.items()), "the strings are not those of the exponentials")


SUBS = [
    Sub("strings", strings, strings_oracle, 4000, 60000, shards=4, rule="a non-identity string, a non-empty tableau or invalid text"),
    Sub("sequences", sequences, sequences_oracle, 3000, 60000, shards=8, rule="a non-identity string with an angle that is not an integer"),
    Sub("maps", maps, maps_oracle, 4000, 80000, shards=8, rule="some X generator is not sent to an X"),
    Sub("wide", wide, wide_oracle, 400, 10000, shards=4, rule="a gate and an exponential (5-20 qubits)"),
    Sub("flows", flows, flows_oracle, 6000, 120000, shards=8, rule="at least one measured node"),
    Sub("large flows", lambda: flows(large=True), flows_oracle, 250, 6000, shards=8, rule="as flows (8-30 nodes)"),
]
