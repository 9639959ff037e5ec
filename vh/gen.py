"""Hypothesis strategies producing JSON-able cases."""
from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from vh.conv import CLIFF_EDGE_SAFE, CLIFF_WORDS

PLANES = ["XY", "YZ", "XZ"]
AXES = ["X", "Y", "Z"]
STATE_NAMES = ["PLUS", "MINUS", "ZERO", "ONE", "PLUS_I", "MINUS_I"]

SPECIAL = [0.0, 0.25, 0.5, 1.0, 1.5, 0.75, -0.25, -0.5, 1.75, 2.0, -1.0, 2.5, 1 / 3, -1.5, 4.0, -3.5]


def angles(pauli_bias: bool = False) -> st.SearchStrategy[float]:
    gen = st.integers(1, 1999).map(lambda k: k / 1000 + 0.0003)
    wide = st.floats(-9, 9, allow_nan=False).map(lambda x: round(x, 6))
    quarter = st.integers(-8, 8).map(lambda k: k / 4)
    half = st.integers(-6, 6).map(lambda k: k / 2)
    if pauli_bias:
        return st.one_of(half, half, gen, quarter, wide)
    return st.one_of(gen, quarter, wide, half)


GENERIC_ANGLES = st.integers(1, 1999).map(lambda k: k / 1000 + 0.0003)

GATES1 = ["H", "S", "X", "Y", "Z", "I"]
GATESR = ["RX", "RY", "RZ", "J"]
GATES2 = ["CNOT", "CZ", "SWAP"]
ALL_GATES = [*GATES1, *GATESR, *GATES2, "RZZ", "CCX"]


@st.composite
def circuits(draw: Any, max_width: int = 3, max_ops: int = 8, gates: list[str] | None = None, measure: bool = False,
             pauli_bias: bool = False, min_width: int = 1, ccx_limit: int = 1, angle: Any = None, min_ops: int = 0) -> dict[str, Any]:
    gates = list(gates or ALL_GATES)
    w = draw(st.sampled_from([x for x in range(min_width, max_width + 1) for _ in range(x)]))
    names = [g for g in gates if not ((g in GATES2 or g == "RZZ") and w < 2) and not (g == "CCX" and w < 3)]
    if measure:
        names = names + ["M", "M"]
    ang = angle if angle is not None else angles(pauli_bias)
    size = draw(st.sampled_from([x for x in range(min_ops, max_ops + 1) for _ in range(2 if x >= 3 else 1)]))
    raw = draw(st.lists(st.tuples(st.sampled_from(names), st.integers(0, 5), st.integers(0, 4), st.integers(0, 3), ang),
                        min_size=size, max_size=size))
    ops: list[list[Any]] = []
    active = list(range(w))
    n_ccx = 0
    for k, a, b, c, th in raw:
        if not active:
            break
        q = active[a % len(active)]
        rest = [x for x in active if x != q]
        if k in GATES1:
            ops.append([k, q])
        elif k in GATESR:
            ops.append([k, q, th])
        elif k == "M":
            ops.append(["M", q, AXES[b % 3]])
            active.remove(q)
        elif k == "CCX":
            if len(rest) < 2 or n_ccx >= ccx_limit:
                continue
            n_ccx += 1
            q2 = rest[b % len(rest)]
            rest2 = [x for x in rest if x != q2]
            ops.append(["CCX", q, q2, rest2[c % len(rest2)]])
        else:
            if not rest:
                continue
            q2 = rest[b % len(rest)]
            ops.append([k, q, q2, th] if k == "RZZ" else [k, q, q2])
    return {"w": w, "ops": ops}


@st.composite
def labels(draw: Any, n: int) -> list[int]:
    """n distinct node labels; sometimes simply 0..n-1."""
    if draw(st.booleans()):
        return list(range(n))
    return draw(st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True))


def meas_strategy(pauli: float = 0.4, planes: list[str] | None = None, pauli_bias: bool = True) -> st.SearchStrategy[list[Any]]:
    b = st.tuples(st.just("B"), st.sampled_from(planes or PLANES), angles(pauli_bias)).map(list)
    p = st.tuples(st.just("P"), st.sampled_from(AXES), st.sampled_from([1, -1])).map(list)
    if pauli <= 0:
        return b
    return st.one_of(b, p)


@st.composite
def soups(draw: Any, max_active: int = 4, max_total: int = 8, max_steps: int = 22, clifford: bool = True, states: bool = True,
          meas: Any = None, max_inputs: int = 2, edge_safe: bool = True, corrections: bool = True, min_steps: int = 0,
          outputs: bool | None = None) -> dict[str, Any]:
    """Arbitrary runnable (not necessarily deterministic) patterns."""
    lab = draw(labels(max_total))
    n_in = draw(st.integers(0, max_inputs))
    ms = meas if meas is not None else meas_strategy()
    kinds = ["N", "N", "E", "E", "E", "M", "M"] + (["X", "Z"] if corrections else []) + (["C"] if clifford else [])
    size = draw(st.integers(min_steps, max_steps))
    raw = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 11), st.integers(0, 11), st.integers(0, 255), st.integers(0, 255), ms),
                        min_size=size, max_size=size))
    end_all = draw(st.sampled_from([0, 0, 0, 1])) if outputs is None else (0 if outputs else 1)
    inputs = lab[:n_in]
    free = lab[n_in:]
    active = list(inputs)
    done: list[int] = []
    cl: dict[int, bool] = {}
    cmds: list[list[Any]] = []

    def dom(mask: int) -> list[int]:
        # sparse: use only the low bits
        return [x for i, x in enumerate(done) if (mask >> (i % 8)) & 1]

    for k, a, b, m1, m2, ms_ in raw:
        if k == "N":
            if len(active) >= max_active or not free:
                continue
            n = free.pop(0)
            stt = STATE_NAMES[m1 % 6] if states and m2 % 3 == 2 else "PLUS"
            if states and m2 % 11 == 10:
                stt = ["P", PLANES[m1 % 3], (m1 % 16) / 8 + 0.01]
            cmds.append(["N", n, stt])
            active.append(n)
            continue
        if not active:
            continue
        q = active[a % len(active)]
        if k == "E":
            rest = [x for x in active if x != q]
            if not rest:
                continue
            q2 = rest[b % len(rest)]
            if edge_safe and not (cl.get(q, True) and cl.get(q2, True)):
                continue
            cmds.append(["E", q, q2])
        elif k == "M":
            cmds.append(["M", q, ms_, dom(m1), dom(m2)])
            active.remove(q)
            done.append(q)
        elif k in "XZ":
            cmds.append([k, q, dom(m1)])
        elif k == "C":
            w = CLIFF_WORDS[m1 % 24]
            cmds.append(["C", q, w])
            cl[q] = cl.get(q, True) and CLIFF_EDGE_SAFE[w]
    if end_all:
        while active:
            q = active.pop(0)
            cmds.append(["M", q, ["B", "XY", 0.3], done[-1:], done[:1]])
            done.append(q)
    perm = draw(st.permutations(active))
    return {"in": inputs, "cmds": cmds, "out": list(perm)}


@st.composite
def gflow_graphs(draw: Any, max_out: int = 3, max_meas: int = 5, planes: list[str] | None = None, pauli_bias: bool = True,
                 paulis: bool = True, min_meas: int = 0, heavy: bool = False) -> dict[str, Any]:
    """Open graphs with a gflow, by construction; keeps the correction sets used.

    Nodes are added from last to first.  For a new node v, every earlier correction set must meet N(v)
    evenly (v precedes those measured nodes), and its own correction set p(v) must satisfy its plane's
    condition.  Output: nodes in measurement order (then outputs), edges, in, out, meas, p (correction sets).
    """
    n_out = draw(st.integers(1, max_out))
    n_m = draw(st.integers(min_meas, max_meas))
    n = n_out + n_m
    lab = draw(labels(n))
    outs = lab[:n_out]
    existing = list(outs)
    adj: dict[int, set[int]] = {v: set() for v in outs}
    p: dict[int, set[int]] = {}
    meas: dict[int, list[Any]] = {}
    # edges among outputs
    bits = draw(st.integers(0, 7))
    k = 0
    for i in range(n_out):
        for j in range(i + 1, n_out):
            if (bits >> k) & 1:
                adj[outs[i]].add(outs[j])
                adj[outs[j]].add(outs[i])
            k += 1
    planes = planes or PLANES
    for v in lab[n_out:]:
        # basis of {N : |N & p(u)| even for all u}
        idx = {x: i for i, x in enumerate(existing)}
        rows = [sum(1 << idx[x] for x in p[u] if x in idx) for u in p]
        basis = _nullspace(rows, len(existing))
        code = draw(st.integers(0, (1 << len(basis)) - 1)) if basis else 0
        nb = 0
        for i, b in enumerate(basis):
            if (code >> i) & 1:
                nb ^= b
        if nb == 0 and basis:
            nb = basis[draw(st.integers(0, len(basis) - 1))]
        nset = {existing[i] for i in range(len(existing)) if (nb >> i) & 1}
        plane = draw(st.sampled_from(planes))
        # p(v) minus v: sparse random subset
        pmask = draw(st.integers(0, (1 << len(existing)) - 1)) & draw(st.integers(0, (1 << len(existing)) - 1))
        pset = {existing[i] for i in range(len(existing)) if (pmask >> i) & 1}
        odd = len(pset & nset) % 2 == 1
        if plane in ("XY", "XZ"):
            if not nset:
                plane = "YZ" if "YZ" in planes else None
            elif not odd:
                w = sorted(nset, key=existing.index)[draw(st.integers(0, len(nset) - 1))]
                pset ^= {w}
        if plane is None:
            continue
        if plane == "YZ" and len(pset & nset) % 2 == 1:
            w = sorted(nset, key=existing.index)[draw(st.integers(0, len(nset) - 1))]
            pset ^= {w}
        if plane in ("XZ", "YZ"):
            pset = pset | {v}
        adj[v] = set()
        for x in nset:
            adj[v].add(x)
            adj[x].add(v)
        p[v] = pset
        m = ["B", plane, draw(angles(pauli_bias))]
        if heavy and draw(st.sampled_from([True, True, False])):
            m[2] = draw(st.integers(-2, 4)) / 2
        if paulis and (2 * m[2]) == int(2 * m[2]) and (heavy or draw(st.booleans())):
            m = _pauli_of(m)
        meas[v] = m
        existing.append(v)
    order = [v for v in reversed(existing) if v in p]
    used = set().union(*p.values()) if p else set()
    cand = [v for v in existing if v not in used]
    inmask = draw(st.integers(0, (1 << len(cand)) - 1)) if cand else 0
    ins = [c for i, c in enumerate(cand) if (inmask >> i) & 1][:3]
    ins = list(draw(st.permutations(ins)))
    outs2 = list(draw(st.permutations(outs)))
    edges = sorted([a, b] for a in adj for b in adj[a] if a < b)
    return {"nodes": order + outs2, "edges": edges, "in": ins, "out": outs2,
            "meas": [[v, meas[v]] for v in order], "p": [[v, sorted(p[v])] for v in order]}


def _pauli_of(m: list[Any]) -> list[Any]:
    from vh.ref import PLANE_AXES

    k = round(2 * m[2]) % 4
    axis = PLANE_AXES[m[1]][k % 2]
    return ["P", axis, 1 if k < 2 else -1]


def _nullspace(rows: list[int], n: int) -> list[int]:
    """Basis of the null space over GF(2); vectors as bit masks."""
    rows = list(rows)
    piv: list[int] = []
    red: list[int] = []
    for r in rows:
        for c, q in zip(piv, red):
            if (r >> c) & 1:
                r ^= q
        if r:
            c = (r & -r).bit_length() - 1
            for i in range(len(red)):
                if (red[i] >> c) & 1:
                    red[i] ^= r
            piv.append(c)
            red.append(r)
    basis = []
    for f in range(n):
        if f in piv:
            continue
        v = 1 << f
        for c, q in zip(piv, red):
            if (q >> f) & 1:
                v |= 1 << c
        basis.append(v)
    return basis


def og_pattern(og: dict[str, Any], style: int = 0, outwords: list[str] | None = None) -> dict[str, Any]:
    """Deterministic pattern for a gflow graph, written without graphix.

    style 0: all N, all E, measure+correct in order.  style 1: lazy N/E (just before needed).
    style 2: corrections of inner nodes absorbed into measurement domains.
    """
    p = {v: set(s) for v, s in og["p"]}
    meas = {v: m for v, m in og["meas"]}
    adj: dict[int, set[int]] = {v: set() for v in og["nodes"]}
    for a, b in og["edges"]:
        adj[a].add(b)
        adj[b].add(a)
    cmds: list[list[Any]] = []
    added = set(og["in"])
    edges_done: set[tuple[int, int]] = set()

    def addn(v: int) -> None:
        if v not in added:
            added.add(v)
            cmds.append(["N", v, "PLUS"])

    def adde(v: int) -> None:
        addn(v)
        for x in sorted(adj[v]):
            e = (min(v, x), max(v, x))
            if e not in edges_done:
                edges_done.add(e)
                addn(x)
                cmds.append(["E", v, x])

    if style != 1:
        for v in og["nodes"]:
            addn(v)
        for v in og["nodes"]:
            adde(v)
    sdom: dict[int, set[int]] = {v: set() for v in og["nodes"]}
    tdom: dict[int, set[int]] = {v: set() for v in og["nodes"]}
    for v in og["nodes"]:
        if v not in meas:
            continue
        adde(v)
        if style == 2:
            cmds.append(["M", v, meas[v], sorted(sdom[v]), sorted(tdom[v])])
        else:
            cmds.append(["M", v, meas[v], [], []])
        odd: set[int] = set()
        for x in p[v]:
            odd ^= adj[x]
        for x in sorted(p[v] - {v}):
            if style == 2:
                sdom[x] ^= {v}
            else:
                if style == 1:
                    adde(x)  # keep entanglement before corrections only where convenient
                cmds.append(["X", x, [v]])
        for x in sorted(odd - {v}):
            if style == 2:
                tdom[x] ^= {v}
            else:
                addn(x)
                cmds.append(["Z", x, [v]])
    for v in og["nodes"]:
        adde(v)
    if style == 2:
        for v in og["out"]:
            if sdom[v]:
                cmds.append(["X", v, sorted(sdom[v])])
            if tdom[v]:
                cmds.append(["Z", v, sorted(tdom[v])])
    if outwords:
        for v, w in zip(og["out"], outwords):
            if w:
                cmds.append(["C", v, w])
    return {"in": og["in"], "cmds": cmds, "out": og["out"]}


@st.composite
def det_patterns(draw: Any, clifford: bool = True, max_meas: int = 5, max_out: int = 3, pauli_bias: bool = True, heavy: bool = False,
                 min_meas: int = 0, paulis: bool = True, planes: list[str] | None = None) -> dict[str, Any]:
    """Deterministic runnable patterns built without graphix."""
    og = draw(gflow_graphs(max_meas=max_meas, max_out=max_out, pauli_bias=pauli_bias, heavy=heavy, min_meas=min_meas, paulis=paulis, planes=planes))
    style = draw(st.integers(0, 2))
    ow = None
    if clifford and draw(st.booleans()):
        ow = [draw(st.sampled_from(CLIFF_WORDS)) for _ in og["out"]]
    return og_pattern(og, style, ow)


def picks() -> st.SearchStrategy[list[int]]:
    """Encodings of outcome branches to look at when there are too many to enumerate."""
    return st.lists(st.integers(0, 2**20 - 1), min_size=3, max_size=6)


@st.composite
def open_graphs(draw: Any, max_nodes: int = 6, kinds: str = "bloch", min_nodes: int = 1, balanced: bool = False) -> dict[str, Any]:
    """Arbitrary open graphs.  kinds: 'bloch' (planes+angles), 'mixed' (with Paulis), 'xy', 'planes', 'labels'."""
    n = draw(st.integers(min_nodes, max_nodes))
    lab = draw(labels(n))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    emask = draw(st.integers(0, (1 << len(pairs)) - 1)) if pairs else 0
    if draw(st.booleans()) and pairs:
        emask &= draw(st.integers(0, (1 << len(pairs)) - 1))
    edges = sorted(sorted([lab[i], lab[j]]) for k, (i, j) in enumerate(pairs) if (emask >> k) & 1)
    n_out = draw(st.integers(0, min(3, n)))
    outs = list(draw(st.permutations(lab)))[:n_out]
    n_in = n_out if balanced else draw(st.integers(0, max(0, min(n_out, 3))))
    ins = list(draw(st.permutations(lab)))[:n_in]
    meas = []
    for v in lab:
        if v in outs:
            continue
        meas.append([v, draw(_og_meas(kinds))])
    return {"nodes": lab, "edges": edges, "in": ins, "out": outs, "meas": meas}


def _og_meas(kinds: str) -> Any:
    if kinds == "xy":
        return st.tuples(st.just("B"), st.just("XY"), angles()).map(list)
    if kinds == "bloch":
        return meas_strategy(0)
    if kinds == "mixed":
        return meas_strategy(0.5)
    if kinds == "planes":
        return st.sampled_from(PLANES).map(lambda p: ["PL", p])
    if kinds == "labels":
        return st.one_of(st.sampled_from(PLANES).map(lambda p: ["PL", p]), st.sampled_from(AXES).map(lambda p: ["AX", p]))
    raise ValueError(kinds)
