"""Large instances: seeded generators, in the formats of vh.gen, whose meaning the reference can still compute.

The size is in the number of commands, gates or nodes; the number of qubits alive at once (after delaying every preparation as
long as possible) stays small.  A case is built from a drawn seed and a drawn size, so that smaller sizes are prefixes or
simpler instances and shrinking works on the size.
"""
from __future__ import annotations

from random import Random
from typing import Any, Callable

from hypothesis import strategies as st

from vh import gen
from vh.gen import ALL_GATES, AXES, CLIFF_EDGE_SAFE, CLIFF_WORDS, GATES1, GATES2, GATESR, PLANES, STATE_NAMES


@st.composite
def seeded(draw: Any, build: Callable[..., Any], lo: int, hi: int, **kw: Any) -> Any:
    return build(Random(draw(st.integers(0, 2**32 - 1))), draw(st.integers(lo, hi)), **kw)


def angle(r: Random, pauli: float = 0.3) -> float:
    if r.random() < pauli:
        return r.randint(-4, 6) / 2
    return r.choice([0.25, -0.25, 0.3137, 1.1, -0.77, 1.9, 0.125, 2.6, -1.3])


def labels(r: Random, n: int) -> list[int]:
    k = r.randrange(4)
    if k == 0:
        return list(range(n))
    if k == 1:
        return r.sample(range(n), n)
    if k == 2:
        return r.sample(range(5 * n), n)
    return r.sample(range(90, 90 + 20 * n), n)


def circuit(r: Random, size: int, min_width: int = 3, max_width: int = 5, gates: list[str] | None = None, measure: int = 0, ccx: int = 1, pauli: float = 0.3) -> dict[str, Any]:
    w = r.randint(min_width, max_width)
    names = [g for g in gates or ALL_GATES if not (g == "CCX" and w < 3)]
    ops: list[list[Any]] = []
    active = list(range(w))
    for _ in range(size):
        k = r.choice(names)
        if measure and len(active) > 1 and r.randrange(max(2, size // (measure + 1))) == 0:
            q = r.choice(active)
            ops.append(["M", q, r.choice(AXES)])
            active.remove(q)
            measure -= 1
        elif k in GATES1:
            ops.append([k, r.choice(active)])
        elif k in GATESR:
            ops.append([k, r.choice(active), angle(r, pauli)])
        elif k == "CCX":
            if len(active) >= 3 and ccx:
                ccx -= 1
                ops.append(["CCX", *r.sample(active, 3)])
        elif len(active) >= 2:
            ops.append([k, *r.sample(active, 2), *([angle(r, pauli)] if k == "RZZ" else [])])
    return {"w": w, "ops": ops}


def measurement(r: Random, pauli: float, planes: list[str] = PLANES) -> list[Any]:
    if r.random() < pauli:
        return ["P", r.choice(AXES), r.choice([1, -1])]
    return ["B", r.choice(planes), angle(r)]


def soup(r: Random, size: int, max_active: int = 5, clifford: bool = True, states: bool = True, pauli: float = 0.4, max_inputs: int = 2, edge_safe: bool = True, domain: int = 9) -> dict[str, Any]:
    """An arbitrary runnable pattern of about size commands; domains refer to old and recent outcomes alike."""
    lab = labels(r, size + max_inputs)
    inputs = lab[: r.randint(0, max_inputs)]
    free = lab[len(inputs) :]
    active, done = list(inputs), []
    cl: dict[int, bool] = {}
    cmds: list[list[Any]] = []

    def dom() -> list[int]:
        k = r.choice([0, 0, 1, 1, 2, 3, r.randint(0, domain)])
        return r.sample(done, min(k, len(done)))

    for _ in range(size):
        k = r.choice(["N", "N", "E", "E", "E", "M", "M", "X", "Z"] + ["C"] * clifford)
        if k == "N" or not active:
            if len(active) < max_active:
                cmds.append(["N", free.pop(0), r.choice(STATE_NAMES) if states and r.randrange(3) == 0 else "PLUS"])
                active.append(cmds[-1][1])
            continue
        q = r.choice(active)
        if k == "E" and len(active) > 1:
            a, b = r.sample(active, 2)
            if not edge_safe or cl.get(a, True) and cl.get(b, True):
                cmds.append(["E", a, b])
        elif k == "M":
            cmds.append(["M", q, measurement(r, pauli), dom(), dom()])
            active.remove(q)
            done.append(q)
        elif k in "XZ":
            cmds.append([k, q, dom()])
        elif k == "C":
            w = r.choice(CLIFF_WORDS)
            cmds.append(["C", q, w])
            cl[q] = cl.get(q, True) and CLIFF_EDGE_SAFE[w]
    r.shuffle(active)
    return {"in": inputs, "cmds": cmds, "out": active}


def og(r: Random, size: int, max_out: int = 3, planes: list[str] | None = None, pauli: float = 0.2, window: int = 6, balanced: bool = False) -> dict[str, Any]:
    """An open graph of size measured nodes with a gflow, by construction (as vh.gen.gflow_graphs, but local)."""
    n_out = r.randint(1, max_out)
    lab = labels(r, n_out + size)
    outs = lab[:n_out]
    adj: dict[int, set[int]] = {v: set() for v in outs}
    p: dict[int, set[int]] = {}
    meas: dict[int, list[Any]] = {}
    existing = list(outs)
    heads: list[set[int]] = [{v} for v in outs]  # disjoint sets that every correction set meets evenly
    planes = planes or PLANES
    for i in range(n_out - 1):
        if r.randrange(2):
            adj[outs[i]].add(outs[i + 1])
            adj[outs[i + 1]].add(outs[i])
    for v in lab[n_out:]:
        plane = r.choice([*planes, "XY", "XY"]) if "XY" in planes else r.choice(planes)
        h = r.randrange(len(heads))
        chosen = [h] + [i for i in range(len(heads)) if i != h and r.randrange(3) == 0]
        nset = set().union(*(heads[i] for i in chosen))
        taken = set().union(*heads)
        pset = {x for x in existing[-window:] if r.randrange(6) == 0 and x not in taken}
        y = r.choice(sorted(heads[h]))
        if plane == "XY":
            pset.add(y)
            heads[h] = {v}
        elif plane == "XZ":
            pset |= {v, y}
            heads[h] = heads[h] | {v}
        else:
            pset.add(v)
        p[v] = pset
        adj[v] = set(nset)
        for x in nset:
            adj[x].add(v)
        meas[v] = ["B", plane, angle(r, pauli)]
        existing.append(v)
    order = [v for v in reversed(existing) if v in p]
    for v in order:
        m = meas[v]
        if (2 * m[2]) == int(2 * m[2]) and r.randrange(2):
            meas[v] = gen._pauli_of(m)
    used = set().union(*p.values()) if p else set()
    cand = [v for v in existing if v not in used]
    ins = r.sample(cand, min(len(cand), n_out if balanced else r.randint(0, 3)))
    r.shuffle(outs)
    edges = sorted([a, b] for a in adj for b in adj[a] if a < b)
    return {"nodes": order + outs, "edges": edges, "in": ins, "out": outs, "meas": [[v, meas[v]] for v in order], "p": [[v, sorted(p[v])] for v in order]}


def det(r: Random, size: int, clifford: bool = True, **kw: Any) -> dict[str, Any]:
    g = og(r, size, **kw)
    words = [r.choice(CLIFF_WORDS) for _ in g["out"]] if clifford and r.randrange(2) else None
    return gen.og_pattern(g, r.randrange(3), words)


def causal(r: Random, size: int, max_wires: int = 6) -> dict[str, Any]:
    """A graph of size nodes with a causal flow by construction (wires, and edges compatible with a total order)."""
    k = r.randint(1, max_wires)
    seq = [r.randrange(k) for _ in range(size)]
    names = labels(r, size)
    prev: dict[int, int | None] = {}
    wires: dict[int, list[int]] = {}
    time = {}
    for t, w in enumerate(seq):
        v = names[t]
        time[v] = t
        wire = wires.setdefault(w, [])
        prev[v] = wire[-1] if wire else None
        wire.append(v)
    edges = {tuple(sorted(e)) for w in wires.values() for e in zip(w, w[1:])}
    for i in range(size):
        a, b = names[i], names[max(0, i - r.randint(1, 2 * k))]
        if a == b or tuple(sorted((a, b))) in edges:
            continue
        if all(p is None or time[p] < time[other] for p, other in ((prev[a], b), (prev[b], a))):
            edges.add(tuple(sorted((a, b))))
    outs = [w[-1] for w in wires.values()]
    ins = [w[0] for w in wires.values() if r.randrange(4)]
    r.shuffle(outs)
    r.shuffle(ins)
    return {"nodes": r.sample(names, size), "edges": sorted(list(e) for e in edges), "in": ins, "out": outs, "meas": [[v, ["PL", "XY"]] for v in names if v not in outs]}


def mutate(r: Random, og: dict[str, Any]) -> dict[str, Any]:
    """An edge toggled, a label changed, or an input added or removed."""
    kind = r.choice(["edge", "label", "input"])
    og = dict(og)
    if kind == "edge" and len(og["nodes"]) > 1:
        e = sorted(r.choice(og["edges"]) if og["edges"] and r.randrange(2) else r.sample(og["nodes"], 2))
        og["edges"] = [x for x in og["edges"] if sorted(x) != e] if e in [sorted(x) for x in og["edges"]] else [*og["edges"], e]
    elif kind == "label" and og["meas"]:
        i = r.randrange(len(og["meas"]))
        name = r.choice([*PLANES, *AXES])
        og["meas"] = [[v, (["PL", name] if len(name) == 2 else ["AX", name]) if j == i else m] for j, (v, m) in enumerate(og["meas"])]
    elif kind == "input":
        v = r.choice(og["nodes"])
        og["in"] = [x for x in og["in"] if x != v] if v in og["in"] else [*og["in"], v]
    return og


def planes(r: Random, size: int, axes: float = 0.3, changes: int = 1, **kw: Any) -> dict[str, Any]:
    """A graph with a gflow or causal flow by construction, with planes and axes in place of measurements, sometimes changed."""
    if r.randrange(3) == 0:
        g = causal(r, size)
    else:
        g = og(r, size, pauli=0.0, **kw)
        del g["p"]
        part = axes if r.randrange(2) else 0.0
        g["meas"] = [[v, ["AX", r.choice(m[1])] if r.random() < part else ["PL", m[1]]] for v, m in g["meas"]]
        r.shuffle(g["nodes"])
    for _ in range(r.randint(0, changes)):
        g = mutate(r, g)
    return g
