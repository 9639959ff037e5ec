"""Independent reference for causal flow, gflow and Pauli flow on (small) open graphs.

Sets of nodes are bit masks over the positions of the nodes.  Existence is decided layer by layer from the outputs: with a
given set of future nodes, the conditions on a correction set are linear over GF(2).  Conditions only get weaker when the
future grows, so the greedy layering is maximally delayed and of minimal depth.
"""
from __future__ import annotations

from typing import Any, Iterable, Mapping, Sequence

LABELS = ["XY", "YZ", "XZ", "X", "Y", "Z"]


def label_of(m: Sequence[Any]) -> str:
    """Label of a JSON measurement, plane or axis."""
    return m[1]


class G:
    def __init__(self, nodes: Sequence[int], edges: Iterable[Sequence[int]], ins: Iterable[int], outs: Iterable[int], labels: Mapping[int, str]) -> None:
        self.nodes = list(nodes)
        self.idx = {v: i for i, v in enumerate(self.nodes)}
        self.n = len(self.nodes)
        self.adj = [0] * self.n
        for a, b in edges:
            i, j = self.idx[a], self.idx[b]
            if i != j:
                self.adj[i] |= 1 << j
                self.adj[j] |= 1 << i
        self.ins = self.mask(ins)
        self.outs = self.mask(outs)
        self.labels = [labels.get(v) for v in self.nodes]
        self.all = (1 << self.n) - 1

    @staticmethod
    def of(og: Mapping[str, Any]) -> "G":
        meas = og["meas"].items() if isinstance(og["meas"], dict) else og["meas"]
        return G(og["nodes"], og["edges"], og["in"], og["out"], {int(n): label_of(m) for n, m in meas})

    def planar(self, planes: Mapping[int, str]) -> "G":
        g = G(self.nodes, [], [], [], planes)
        g.adj, g.ins, g.outs = self.adj, self.ins, self.outs
        return g

    def mask(self, s: Iterable[int]) -> int:
        m = 0
        for v in s:
            m |= 1 << self.idx[v]
        return m

    def unmask(self, m: int) -> set[int]:
        return {v for i, v in enumerate(self.nodes) if (m >> i) & 1}

    def odd(self, p: int) -> int:
        o = 0
        i = 0
        while p:
            if p & 1:
                o ^= self.adj[i]
            p >>= 1
            i += 1
        return o

    def neigh(self, p: int) -> int:
        o = 0
        for i in range(self.n):
            if (p >> i) & 1:
                o |= self.adj[i]
        return o

    def measured(self) -> list[int]:
        return [i for i in range(self.n) if not (self.outs >> i) & 1]

    # ------------------------------------------------------------- definitions

    def pauli_conditions(self, u: int, p: int, future: int) -> list[str]:
        """Violated propositions P1-P9 of the correction set p of position u, given the nodes after u."""
        bad = []
        o = self.odd(p)
        for j in range(self.n):
            if j == u or (future >> j) & 1:
                continue
            lab = self.labels[j]
            pj, oj = (p >> j) & 1, (o >> j) & 1
            if pj and lab not in ("X", "Y"):
                bad.append("P1")
            if oj and lab not in ("Y", "Z"):
                bad.append("P2")
            if lab == "Y" and pj != oj:
                bad.append("P3")
        pu, ou = (p >> u) & 1, (o >> u) & 1
        lab = self.labels[u]
        name, ok = {"XY": ("P4", not pu and ou), "XZ": ("P5", pu and ou), "YZ": ("P6", pu and not ou), "X": ("P7", ou), "Z": ("P8", pu), "Y": ("P9", pu != ou)}[lab]
        if not ok:
            bad.append(name)
        return bad

    def gflow_conditions(self, u: int, p: int, future: int) -> list[str]:
        bad = []
        o = self.odd(p)
        nf = self.all & ~future & ~(1 << u)
        if p & nf:
            bad.append("G1")
        if o & nf:
            bad.append("G2")
        pu, ou = (p >> u) & 1, (o >> u) & 1
        name, ok = {"XY": ("G3", not pu and ou), "XZ": ("G4", pu and ou), "YZ": ("G5", pu and not ou)}[self.labels[u]]
        if not ok:
            bad.append(name)
        return bad

    def cflow_conditions(self, u: int, p: int, future: int) -> list[str]:
        bad = []
        if self.labels[u] != "XY":
            bad.append("XYPlane")
        if bin(p).count("1") != 1:
            bad.append("C0")
        nb = self.neigh(p)
        if not (nb >> u) & 1:
            bad.append("C1")
        nf = self.all & ~future
        if p & nf:
            bad.append("C2")
        if nb & ~(1 << u) & nf:
            bad.append("C3")
        return bad

    def conditions(self, kind: str, u: int, p: int, future: int) -> list[str]:
        return {"p": self.pauli_conditions, "g": self.gflow_conditions, "c": self.cflow_conditions}[kind](u, p, future)

    # ------------------------------------------------------------- search

    def system(self, kind: str, u: int, future: int) -> list[tuple[int, int]]:
        """Linear conditions (mask over p, constant) for a gflow or Pauli-flow correction set of u."""
        lab = self.labels[u]
        cand = 0
        rows: list[tuple[int, int]] = []
        for j in range(self.n):
            lj = self.labels[j]
            inp = (self.ins >> j) & 1
            if j == u:
                ok = not inp
            elif (future >> j) & 1:
                ok = not inp
            else:
                ok = not inp and kind == "p" and lj in ("X", "Y")
                if kind == "g" or lj not in ("Y", "Z"):
                    rows.append((self.adj[j], 0))
                elif lj == "Y":
                    rows.append((self.adj[j] ^ (1 << j), 0))
            if ok:
                cand |= 1 << j
        me, nb = 1 << u, self.adj[u]
        rows += {"XY": [(me, 0), (nb, 1)], "XZ": [(me, 1), (nb, 1)], "YZ": [(me, 1), (nb, 0)], "X": [(nb, 1)], "Z": [(me, 1)], "Y": [(me ^ nb, 1)]}[lab]
        return [(m & cand, c) for m, c in rows] + [(1 << j, 0) for j in range(self.n) if not (cand >> j) & 1]

    def correct(self, kind: str, u: int, future: int, wish: int | None = None) -> int | None:
        """A correction set for u if the nodes in future are after u, None if there is none.

        With wish, the set agrees with that one on as many positions as possible, first positions first.
        """
        if kind == "c":
            if self.labels[u] != "XY":
                return None
            found = [1 << v for v in range(self.n) if (future >> v) & 1 and not (self.ins >> v) & 1 and (self.adj[v] >> u) & 1 and not (self.adj[v] & ~(1 << u) & ~future)]
            return found[(wish or 0) % len(found)] if found else None
        rows = self.system(kind, u, future)
        sol = gf2_solve(rows)
        if sol is None or wish is None:
            return sol
        for j in range(self.n):
            if (sol ^ wish) >> j & 1:
                more = [*rows, (1 << j, wish >> j & 1)]
                new = gf2_solve(more)
                if new is None:
                    rows.append((1 << j, sol >> j & 1))
                else:
                    sol, rows = new, more
            else:
                rows.append((1 << j, sol >> j & 1))
        return sol

    def find(self, kind: str) -> tuple[list[int], dict[int, int]] | None:
        """(layers from the outputs on, correction sets), of minimal depth, or None."""
        layers = [self.outs] if self.outs else []
        done = self.outs
        p: dict[int, int] = {}
        while done != self.all:
            new = 0
            for u in range(self.n):
                if (done >> u) & 1:
                    continue
                s = self.correct(kind, u, done)
                if s is not None:
                    p[u] = s
                    new |= 1 << u
            if not new:
                return None
            layers.append(new)
            done |= new
        return layers, p

    # ------------------------------------------------------------- verification

    def layer_problems(self, layers: Sequence[set[int]]) -> list[str]:
        """Violations of the general conditions on the partial order."""
        nodes = set(self.nodes)
        if not layers:
            return ["Empty"] if nodes else []
        outs = self.unmask(self.outs)
        bad = []
        if outs and set(layers[0]) != outs:
            bad.append("FirstLayer")
        seen: set[int] = set()
        for i, layer in enumerate(layers):
            layer = set(layer)
            others = set().union(*[set(x) for j, x in enumerate(layers) if j != i])
            if not layer or layer & others or (not (outs and i == 0) and not layer <= nodes - outs):
                bad.append(f"NthLayer:{i}")
            seen |= layer
        if seen | outs != nodes:
            bad.append("IncorrectNodes")
        return bad

    def problems(self, kind: str, cf: Mapping[int, Iterable[int]], layers: Sequence[Iterable[int]]) -> list[tuple[str, int | None]]:
        """Everything wrong with a flow: (condition, node) pairs; empty iff it is well formed."""
        bad: list[tuple[str, int | None]] = []
        meas = {self.nodes[i] for i in self.measured()}
        nodes = set(self.nodes)
        if set(cf) != meas:
            bad.append(("IncorrectCorrectionFunctionDomain", None))
        image = set().union(*[set(s) for s in cf.values()]) if cf else set()
        if not image <= nodes - self.unmask(self.ins):
            bad.append(("IncorrectCorrectionFunctionImage", None))
        ls = [set(x) for x in layers]
        bad += [(x, None) for x in self.layer_problems(ls)]
        # the conditions themselves only make sense for nodes of the graph
        # (a node in several layers: a condition is reported if it is violated for its first or its last occurrence)
        for late in (False, True):
            pos: dict[int, int] = {}
            for i, layer in enumerate(ls):
                for v in layer:
                    if late or v not in pos:
                        pos[v] = i
            for v in meas:
                if v not in cf or v not in pos or not set(cf[v]) <= nodes:
                    continue
                for at in {i for i, layer in enumerate(ls) if v in layer}:
                    future = self.mask(w for w in pos if w in nodes and pos[w] < at)
                    bad += [(x, v) for x in self.conditions(kind, self.idx[v], self.mask(cf[v]), future)]
        return list(dict.fromkeys(bad))

    def xz_problems(self, xc: Mapping[int, Iterable[int]], zc: Mapping[int, Iterable[int]], layers: Sequence[Iterable[int]]) -> list[tuple[str, int | None]]:
        """Everything wrong with a set of corrections."""
        bad: list[tuple[str, int | None]] = []
        nodes = set(self.nodes)
        meas = {self.nodes[i] for i in self.measured()}
        if not set(xc) | set(zc) <= meas:
            bad.append(("IncorrectKeys", None))
        if not set().union(*[set(s) for c in (xc, zc) for s in c.values()]) <= nodes:
            bad.append(("IncorrectValues", None))
        ls = [set(x) for x in layers]
        bad += [(x, None) for x in self.layer_problems(ls)]
        for name, c in (("X", xc), ("Z", zc)):
            for v, s in c.items():
                for at in {i for i, layer in enumerate(ls) if v in layer}:
                    if set(s) & set().union(*ls[at:]):
                        bad.append((name, v))
        return list(dict.fromkeys(bad))

    def depth_ok(self, layers: Sequence[Iterable[int]], ref_layers: Sequence[int]) -> bool:
        return len(layers) == len(ref_layers)


def gf2_solve(rows: list[tuple[int, int]]) -> int | None:
    """One solution x of parity(x & mask) = const for all rows, None if inconsistent."""
    red: list[tuple[int, int, int]] = []  # (pivot bit, mask, const), fully reduced
    for m, c in rows:
        for b, m2, c2 in red:
            if m & b:
                m ^= m2
                c ^= c2
        if not m:
            if c:
                return None
            continue
        b = m & -m
        red = [(b2, m2 ^ m, c2 ^ c) if m2 & b else (b2, m2, c2) for b2, m2, c2 in red]
        red.append((b, m, c))
    x = 0
    for b, _, c in red:
        if c:
            x |= b
    return x


def dag_generations(pairs: Iterable[tuple[int, int]], nodes: Iterable[int]) -> list[set[int]] | None:
    """Layers of a DAG given by (before, after): generation 0 has nothing before it; None if cyclic."""
    left = set(nodes)
    ps = {(a, b) for a, b in pairs}
    gens = []
    while left:
        g = {v for v in left if not any(b == v and a in left for a, b in ps)}
        if not g:
            return None
        gens.append(g)
        left -= g
    return gens
