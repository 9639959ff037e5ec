"""Generators of open graphs with flows (valid ones, not only the maximally delayed and focused ones)."""
from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from vh import gen
from vh.flowref import G

KINDS = {"c": "CausalFlow", "g": "GFlow", "p": "PauliFlow"}


def draw_flow(draw: Any, og: dict[str, Any], kind: str) -> tuple[list[list[Any]], list[list[int]]] | None:
    """A valid flow for og in a random layering, with random correction sets; None if there is no flow."""
    g = G.of(og)
    if g.find(kind) is None:
        return None
    layers = [g.outs] if g.outs else []
    done = g.outs
    p: dict[int, int] = {}
    lazy = draw(st.integers(0, 2))  # how eagerly nodes are put into a layer
    while done != g.all:
        ready = [u for u in g.measured() if not (done >> u) & 1 and g.correct(kind, u, done) is not None]
        keep = (1 << len(ready)) - 1 if lazy == 0 else draw(st.integers(1, (1 << len(ready)) - 1)) if lazy == 1 else 1 << draw(st.integers(0, len(ready) - 1))
        new = 0
        for i, u in enumerate(ready):
            if (keep >> i) & 1:
                p[u] = g.correct(kind, u, done, draw(st.integers(0, g.all)))
                new |= 1 << u
        layers.append(new)
        done |= new
    cf = [[g.nodes[u], sorted(g.unmask(s))] for u, s in p.items()]
    return cf, [sorted(g.unmask(x)) for x in layers]


def relabel(draw: Any, og: dict[str, Any], rel: int) -> dict[str, Any]:
    """Replace planes by axes of that plane for about rel of 3 measured nodes."""
    meas = []
    for v, m in og["meas"]:
        name = m[1]
        if rel and m[0] == "PL" and draw(st.integers(0, 2)) < rel:
            name = draw(st.sampled_from(list(name)))
        meas.append([v, ["PL", name] if len(name) == 2 else ["AX", name]])
    return {**og, "meas": meas}


def bloch(draw: Any, og: dict[str, Any], pauli_like: bool = False) -> dict[str, Any]:
    """Replace planes by measurements with an angle and axes by signed Pauli measurements."""
    meas = []
    for v, m in og["meas"]:
        name = m[1]
        if m[0] == "PL":
            meas.append([v, ["B", name, draw(gen.angles() if pauli_like else gen.GENERIC_ANGLES)]])
        else:
            meas.append([v, ["P", name, draw(st.sampled_from([1, -1]))]])
    return {**og, "meas": meas}
