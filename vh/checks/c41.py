"""C41: objects are equal exactly when their descriptions are, and duplicates behave as the original.

``duplicates``: objects produced by a history of requests (the machinery of C38) are duplicated by ``copy.deepcopy``, by
``pickle`` with any protocol or by ``copy.copy``; the duplicate reads the same, answers further requests as the original
does, ends as the original after the same modifications, and leaves the original alone when it is modified by itself.

``equality``: pairs of descriptions, one obtained from the other by a chain of small changes (possibly undone), are built
separately; ``==``, ``!=`` and ``hash`` must agree with the equality of the descriptions.
"""
from __future__ import annotations

import ast
import copy
import json
import pickle
import re
import warnings
from typing import Any, Callable

import networkx as nx
from hypothesis import strategies as st

from graphix import command, instruction
from graphix.circ_ext.extraction import PauliExponential, PauliString
from graphix.clifford import Clifford
from graphix.extraction import ResourceGraph, ResourceType
from graphix.fundamentals import Axis, Sign
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.optimization import StandardizedPattern
from graphix.parameter import AffineExpression, Placeholder
from graphix.pattern import Pattern
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.states import PlanarState
from vh import conv, gen
from vh.checks import c38
from vh.checks.c38 import CHANGE, PURE, Skip, World, fp
from vh.core import HarnessError, Info, Sub, check

# ------------------------------------------------------------------ duplicates

SHALLOW = {"og", "flow", "xz", "std"}  # immutable, and holding mapping proxies, which Python can neither pickle nor copy deeply


@st.composite
def dup_cases(draw: Any) -> dict[str, Any]:
    d = draw(c38.cases())
    d["dups"] = draw(st.lists(st.tuples(st.integers(0, 2**16), st.integers(0, 3), st.integers(0, 5), st.lists(st.tuples(st.integers(0, 2**16), st.integers(0, 30)).map(list), min_size=1, max_size=5), st.booleans()).map(list), min_size=1, max_size=4))
    return d


def duplicate(x: Any, kind: str, how: int, protocol: int) -> tuple[str, Any]:
    if kind in SHALLOW:
        return "copy", copy.copy(x)
    if how == 0:
        return "deepcopy", copy.deepcopy(x)
    if kind == "pattern" and how == 1:
        return "Pattern.copy", x.copy()
    return f"pickle {protocol}", pickle.loads(pickle.dumps(x, protocol=protocol))  # noqa: S301


# Python gives no order to sets, and a duplicate's may be run through in another order
SET_ORDERED = {("er", "to_circuit")}


def loose(x: Any) -> Any:
    """A reading without addresses and up to the order of what comes from sets."""
    if isinstance(x, str):
        return "".join(sorted(re.sub(r" at 0x[0-9a-f]+", "", x)))
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "pattern":
        ins, outs, cmds = ast.literal_eval(x[1])
        return ("pattern", ins, outs, sorted(map(repr, cmds)), x[2])
    return tuple(map(loose, x)) if isinstance(x, tuple) else x


def attempt(fn: Callable[..., Any], w: World, x: Any, arg: int) -> Any:
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fp(fn(w, x, arg))
    except Skip:
        raise
    except (HarnessError,):
        raise
    except Exception as e:  # noqa: BLE001  (what may be refused is the matter of other properties)
        return ("raised", type(e).__name__)


def dup_oracle(case: Any, info: Info) -> None:
    w = c38.world(case, info)
    for i, j, arg in case["steps"][:8]:
        w.step(i, j, arg)
    done = 0
    for pick, how, protocol, requests, alone in case["dups"]:
        choices = [(k, x) for k, x, _ in w.pool if k in PURE]
        if not choices:
            return
        kind, x = choices[pick % len(choices)]
        if kind in ("circuit", "pattern") and "Placeholder" in repr(x):
            continue  # placeholders are compared by identity
        before = fp(x)
        name, y = duplicate(x, kind, how, protocol)
        check(type(y) is type(x), lambda: f"{name} of {kind}: {type(y)}")  # noqa: B023
        check(fp(x) == before, lambda: f"{name} changed the {kind}")  # noqa: B023
        check(fp(y) == before, lambda: f"{name} of a {kind}: reads\n{fp(y)}\ninstead of\n{before}")  # noqa: B023
        info.label(f"{kind}: {name.split()[0]}")
        trail = []
        for j, arg in requests:
            changes = [(n, f, True) for n, f in CHANGE.get(kind, [])] if kind not in SHALLOW else []
            table = [(n, f, False) for n, f in PURE[kind] if (kind, n) not in SET_ORDERED] + changes + (changes if alone else [])
            n, fn, modifies = table[j % len(table)]
            trail.append(n)
            try:
                got = attempt(fn, w, y, arg)
                if modifies and alone and not (name == "Pattern.copy" and n == "signals"):
                    check(fp(x) == before, lambda: f"{kind}, {name}, then {trail} on the duplicate alone: the original changed from\n{before}\nto\n{fp(x)}")  # noqa: B023
                    info.label("modified alone")
                    done += 1
                    continue
                if alone and any(t in {m for m, _ in CHANGE.get(kind, [])} for t in trail):
                    continue  # the two have parted
                want = attempt(fn, w, x, arg)
            except Skip:
                break
            check(loose(got) == loose(want), lambda: f"{kind}, {name}, then {trail}: the duplicate answers\n{got}\nthe original\n{want}")  # noqa: B023
            check(loose(fp(y)) == loose(fp(x)), lambda: f"{kind}, {name}, then {trail}: the duplicate reads\n{fp(y)}\nthe original\n{fp(x)}")  # noqa: B023
            before = fp(x)
            done += 1
            if modifies:
                info.label("modified alike")
            if fp(y) != before:
                info.label("another order")
                break
        w.refresh()
    info.nt(done >= 3)


# ------------------------------------------------------------------ running backends


@st.composite
def run_cases(draw: Any) -> dict[str, Any]:
    return {"pattern": draw(gen.soups(max_active=3, max_total=6, max_steps=14, min_steps=4)), "cut": draw(st.integers(0, 20)), "dm": draw(st.booleans()), "how": draw(st.booleans()), "bits": draw(st.integers(0, 63)), "capacity": draw(st.integers(0, 4))}


def apply(backend: Any, cmds: list[Any], results: dict[int, int], bits: int) -> None:
    for c in cmds:
        if c[0] == "N":
            backend.add_nodes([c[1]], conv.state(c[2]))
        elif c[0] == "E":
            backend.entangle_nodes((c[1], c[2]))
        elif c[0] == "M":
            m = conv.measurement(c[2]).clifford(Clifford.I)
            results[c[1]] = int(backend.measure(c[1], m, rng=rng_of(bits + c[1])))
        elif c[0] in "XZ":
            backend.correct_byproduct(conv.cmd(c))
        elif c[0] == "C":
            backend.apply_clifford(c[1], conv.clifford(c[2]))


def rng_of(seed: int) -> Any:
    import numpy as np

    return np.random.default_rng(seed)


def run_oracle(case: Any, info: Info) -> None:
    """A backend duplicated in the course of a simulation, both ends continued in turn."""
    d = case["pattern"]
    cls: Any = DensityMatrixBackend if case["dm"] else StatevectorBackend
    b = cls() if case["dm"] or not case["capacity"] else StatevectorBackend.with_capacity(case["capacity"])
    if d["in"]:
        b.add_nodes(d["in"], conv.state("PLUS"))
    cut = case["cut"] % (len(d["cmds"]) + 1)
    first: dict[int, int] = {}
    apply(b, d["cmds"][:cut], first, case["bits"])
    read = (list(b.node_index), fp(b.state))
    twin = pickle.loads(pickle.dumps(b)) if case["how"] else copy.deepcopy(b)  # noqa: S301
    check((list(twin.node_index), fp(twin.state)) == read, "the duplicate of a backend reads differently")
    one: dict[int, int] = {}
    two: dict[int, int] = {}
    apply(twin, d["cmds"][cut:], one, case["bits"])
    check((list(b.node_index), fp(b.state)) == read, "continuing the duplicate of a backend changed the original")
    apply(b, d["cmds"][cut:], two, case["bits"])
    check(one == two, lambda: f"outcomes {one} from the duplicate, {two} from the original")
    check((list(b.node_index), fp(b.state)) == (list(twin.node_index), fp(twin.state)), "the duplicate of a backend ends in another state")
    info.label("densitymatrix" if case["dm"] else "statevector", "pickle" if case["how"] else "deepcopy")
    info.nt(0 < cut < len(d["cmds"]))


# ------------------------------------------------------------------ equality

A, B = Placeholder("a"), Placeholder("a")  # the same name: placeholders are compared by identity
PARAMS = {"a": A, "b": B}


def build_angle(t: Any) -> Any:
    if isinstance(t, list):
        a, x, b = t
        return PARAMS[x] if (a, b) == (1, 0) else AffineExpression(a, PARAMS[x], b)
    return t


ANGLE = st.one_of(st.sampled_from([0.0, 0.25, 0.5, 1.0, -0.5]), st.tuples(st.sampled_from([1, 2, -1]), st.sampled_from("ab"), st.sampled_from([0, 0.5])).map(list))
NODE = st.integers(0, 3)
DOM = st.lists(NODE, max_size=3)
MEAS = st.one_of(st.tuples(st.just("B"), st.sampled_from(gen.PLANES), ANGLE).map(list), st.tuples(st.just("P"), st.sampled_from(gen.AXES), st.sampled_from([1, -1])).map(list))
STATE = st.one_of(st.sampled_from(gen.STATE_NAMES), st.tuples(st.just("P"), st.sampled_from(gen.PLANES), st.sampled_from([0.0, 0.5, 1.0, 1.5, -0.5, 0.3])).map(list))
NAMED = {"PLUS": ("XY", 0), "MINUS": ("XY", 1), "ZERO": ("XZ", 0), "ONE": ("XZ", 1), "PLUS_I": ("XY", 0.5), "MINUS_I": ("XY", -0.5)}
WORD = st.sampled_from(conv.CLIFF_WORDS)
PAIR = st.tuples(NODE, NODE).map(list)

# kind -> strategy of the description's fields
FIELDS: dict[str, list[Any]] = {
    "meas": [MEAS],
    "state": [STATE],
    "N": [NODE, STATE], "E": [PAIR], "M": [NODE, MEAS, DOM, DOM], "X": [NODE, DOM], "Z": [NODE, DOM], "S": [NODE, DOM], "C": [NODE, WORD], "T": [],
    "H": [NODE], "gS": [NODE], "gX": [NODE], "gY": [NODE], "gZ": [NODE], "I": [NODE], "RX": [NODE, ANGLE], "RY": [NODE, ANGLE], "RZ": [NODE, ANGLE], "J": [NODE, ANGLE],
    "RZZ": [NODE, NODE, ANGLE], "CNOT": [NODE, NODE], "CZ": [PAIR], "SWAP": [PAIR], "CCX": [NODE, PAIR], "gM": [NODE, st.sampled_from(gen.AXES)],
    "affine": [st.tuples(st.sampled_from([1, 2, -1]), st.sampled_from("ab"), st.sampled_from([0, 0.5])).map(list)],
    "string": [st.integers(4, 5), st.dictionaries(NODE.map(str), st.sampled_from(gen.AXES), max_size=3), st.sampled_from([1, -1])],
    "exponential": [ANGLE, st.integers(4, 5), st.dictionaries(NODE.map(str), st.sampled_from(gen.AXES), max_size=3), st.sampled_from([1, -1])],
    "resource": [st.sampled_from(["GHZ", "LINEAR", "NONE"]), st.integers(1, 4), st.lists(PAIR, max_size=4)],
}
COMMANDS = ["N", "E", "M", "X", "Z", "C", "T"]
HASHED = {"meas"}


def norm(kind: str, f: list[Any]) -> Any:
    """The description an object stands for."""
    def angle(t: Any) -> Any:
        return float(t) if not isinstance(t, list) else tuple(t)

    def meas(m: Any) -> Any:
        return (m[0], m[1], angle(m[2]) if m[0] == "B" else m[2])

    def state(s: Any) -> Any:
        p = NAMED[s] if isinstance(s, str) else tuple(s[1:])
        return (p[0], float(p[1]))

    if kind == "meas":
        return meas(f[0])
    if kind == "state":
        return state(f[0])
    if kind == "N":
        return (kind, f[0], state(f[1]))
    if kind == "M":
        return (kind, f[0], meas(f[1]), frozenset(f[2]), frozenset(f[3]))
    if kind in ("X", "Z", "S"):
        return (kind, f[0], frozenset(f[1]))
    if kind == "C":
        return (kind, f[0], conv.clifford(f[1]).name)
    if kind in ("E", "CZ", "SWAP"):
        return (kind, tuple(f[0]))
    if kind in ("RX", "RY", "RZ", "J", "RZZ"):
        return (kind, *f[:-1], angle(f[-1]))
    if kind == "affine":
        return tuple(f[0])
    if kind == "resource":
        return (f[0], f[1], frozenset(frozenset((a % f[1], b % f[1])) for a, b in f[2] if a % f[1] != b % f[1]))
    if kind == "exponential":
        return (kind, angle(f[0]), f[1], tuple(sorted(f[2].items())), f[3])
    if kind == "string":
        return (kind, f[0], tuple(sorted(f[1].items())), f[2])
    if kind == "CCX":
        return (kind, f[0], tuple(f[1]))
    return (kind, *f)


def build(kind: str, f: list[Any]) -> Any:
    def meas(m: Any) -> Any:
        return BlochMeasurement(build_angle(m[2]), conv.PLANES[m[1]]) if m[0] == "B" else PauliMeasurement(Axis[m[1]], Sign.PLUS if m[2] > 0 else Sign.MINUS)

    def state(s: Any) -> Any:
        return conv.state(s) if isinstance(s, str) else PlanarState(conv.PLANES[s[1]], s[2])

    def string(dim: int, axes: Any, sign: int) -> Any:
        return PauliString(dim, {int(k): Axis[v] for k, v in axes.items()}, Sign.PLUS if sign > 0 else Sign.MINUS)

    if kind == "meas":
        return meas(f[0])
    if kind == "state":
        return state(f[0])
    if kind == "N":
        return command.N(f[0], state(f[1]))
    if kind == "E":
        return command.E(tuple(f[0]))  # type: ignore[arg-type]
    if kind == "M":
        return command.M(f[0], meas(f[1]), set(f[2]), set(f[3]))
    if kind in ("X", "Z", "S"):
        return getattr(command, kind)(f[0], set(f[1]))
    if kind == "C":
        return command.C(f[0], conv.clifford(f[1]))
    if kind == "T":
        return command.T()
    if kind == "affine":
        return build_angle(f[0])
    if kind == "string":
        return string(*f)
    if kind == "exponential":
        return PauliExponential(build_angle(f[0]), string(*f[1:]))
    if kind == "resource":
        g: nx.Graph[int] = nx.Graph()
        g.add_nodes_from(range(f[1]))
        g.add_edges_from([(a % f[1], b % f[1]) for a, b in f[2] if a % f[1] != b % f[1]])
        return ResourceGraph({"GHZ": ResourceType.GHZ, "LINEAR": ResourceType.LINEAR, "NONE": ResourceType.NONE}[f[0]], g)
    if kind in ("RX", "RY", "RZ", "J"):
        return getattr(instruction, kind)(f[0], build_angle(f[1]))
    if kind == "RZZ":
        return instruction.RZZ(target=f[0], control=f[1], angle=build_angle(f[2]))
    if kind == "CNOT":
        return instruction.CNOT(target=f[0], control=f[1])
    if kind in ("CZ", "SWAP"):
        return getattr(instruction, kind)(tuple(f[0]))
    if kind == "CCX":
        return instruction.CCX(target=f[0], controls=tuple(f[1]))  # type: ignore[arg-type]
    if kind == "gM":
        return instruction.M(f[0], Axis[f[1]])
    return getattr(instruction, kind.lstrip("g"))(f[0])


@st.composite
def changed(draw: Any, f: list[Any], kind: str) -> tuple[str, list[Any]]:
    """A description near another: one field drawn anew or altered, or another kind with the same fields."""
    what = draw(st.sampled_from(["same", "same", "field", "field", "near", "kind"]))
    g = json.loads(json.dumps(f))
    if what == "field" and g:
        i = draw(st.integers(0, len(g) - 1))
        g[i] = draw(FIELDS[kind][i])
    elif what == "near" and g:
        i = draw(st.integers(0, len(g) - 1))
        if isinstance(g[i], list) and g[i] and not any(isinstance(v, str) for v in g[i]):
            g[i] = draw(st.permutations(g[i]))
        elif isinstance(g[i], list) and len(g[i]) == 3 and isinstance(g[i][0], str):
            j = draw(st.integers(1, 2))
            other = draw(MEAS if kind != "state" and kind != "N" else STATE)
            if isinstance(other, list) and other[0] == g[i][0]:
                g[i][j] = other[j]
        elif isinstance(g[i], str) and g[i] in NAMED:
            g[i] = ["P", NAMED[g[i]][0], draw(st.sampled_from([float(NAMED[g[i]][1]), float(NAMED[g[i]][1]), 0.3]))]
    elif what == "kind":
        same = [k for k in FIELDS if len(FIELDS[k]) == len(FIELDS[kind]) and all(a is b for a, b in zip(FIELDS[k], FIELDS[kind]))]
        kind = draw(st.sampled_from(same))
    return kind, g


@st.composite
def eq_cases(draw: Any) -> dict[str, Any]:
    k = draw(st.sampled_from([*FIELDS, "meas", "M", "M", "affine"]))
    f = [draw(s) for s in FIELDS[k]]
    k2, g = draw(changed(f, k))
    return {"one": [k, f], "two": [k2, g]}


def compare(x: Any, y: Any, same: bool, what: str) -> None:
    for a, b in ((x, y), (y, x)):
        got = a == b
        check(isinstance(got, bool) and got == same, lambda: f"{what}: {a!r} == {b!r} is {got}")  # noqa: B023
        check((a != b) == (not same), lambda: f"{what}: {a!r} != {b!r} is {a != b}")  # noqa: B023
    check(x == x and y == y, f"{what}: not equal to itself")  # noqa: PLR0124


def eq_oracle(case: Any, info: Info) -> None:
    (k, f), (k2, g) = case["one"], case["two"]
    x, y = build(k, f), build(k2, g)
    same = k == k2 and norm(k, f) == norm(k2, g)
    if "resource" in (k, k2) and k != k2:
        return
    compare(x, y, same, k)
    if k == k2 == "meas" and same and not any(isinstance(m[2], list) for m in (f[0], g[0]) if m[0] == "B"):
        check(hash(x) == hash(y), lambda: f"equal measurements {x!r} and {y!r} with hashes {hash(x)} and {hash(y)}")
        check({x: 1}.get(y) == 1, "an equal key is not found")
    if k != "resource":
        check(not (x == "x") and x != None and not (x == 3), "equal to something else")  # noqa: E711
    info.label(k, "equal" if same else "different", "same kind" if k == k2 else "other kind")
    info.nt(k == k2)


@st.composite
def pat_cases(draw: Any) -> dict[str, Any]:
    d = draw(st.one_of(gen.soups(max_active=3, max_total=5, max_steps=10), gen.det_patterns(max_meas=3, max_out=2)))
    e = json.loads(json.dumps(d))
    for what in draw(st.lists(st.sampled_from(["field", "drop", "swap", "out", "in", "add", "dom"]), max_size=2)):
        i = draw(st.integers(0, 31))
        c = e["cmds"][i % len(e["cmds"])] if e["cmds"] else None
        if what == "field" and c:
            if c[0] == "M" and c[2][0] == "B":
                c[2][2] = draw(st.sampled_from([c[2][2], 0.25, c[2][2] + 1e-3]))
            elif c[0] == "M":
                c[2][2] = draw(st.sampled_from([1, -1]))
            elif c[0] == "C":
                c[2] = draw(WORD)
            elif c[0] == "N":
                c[2] = draw(st.sampled_from(gen.STATE_NAMES))
            elif c[0] in "XZ":
                c[0] = draw(st.sampled_from("XZ"))
        elif what == "dom" and c and c[0] in "MXZ":
            j = {"M": 3 + i % 2}.get(c[0], 2)
            c[j] = list(draw(st.permutations(c[j]))) if draw(st.booleans()) or not c[j] else c[j][1:]
        elif what == "drop" and c:
            e["cmds"].remove(c)
        elif what == "swap" and len(e["cmds"]) > 1:
            j = i % (len(e["cmds"]) - 1)
            e["cmds"][j], e["cmds"][j + 1] = e["cmds"][j + 1], e["cmds"][j]
        elif what in ("out", "in"):
            e[what] = list(draw(st.permutations(e[what])))
        elif what == "add":
            e["cmds"].append(["T"])
    return {"one": d, "two": e, "std": draw(st.booleans())}


def pat_oracle(case: Any, info: Info) -> None:
    def described(d: Any) -> Any:
        return [tuple(d["in"]), tuple(d["out"]), [norm_cmd(c) for c in d["cmds"]]]

    def norm_cmd(c: Any) -> Any:
        return norm(c[0], [[c[1], c[2]]] if c[0] == "E" else c[1:])

    try:
        p, q = conv.pattern(case["one"]), conv.pattern(case["two"])
    except Exception:  # noqa: BLE001  (not a legal list of commands any more)
        info.label("refused")
        return
    same = described(case["one"]) == described(case["two"])
    compare(p, q, same, "pattern")
    check(p != list(p) and not (p == "p"), "a pattern equal to something else")
    check(p == p.copy() and p.copy() == p, "a copy is not equal")
    r = Pattern(input_nodes=p.input_nodes, cmds=list(p), output_nodes=p.output_nodes)
    check(r == p, "rebuilt pattern not equal")
    if same and case["std"] and not any(c[0] == "C" for c in case["one"]["cmds"]):
        a, b = StandardizedPattern.from_pattern(p), StandardizedPattern.from_pattern(q)
        check(a == b and not a != b, "standardized patterns of equal patterns differ")
    info.label("equal" if same else "different")
    info.nt(len(case["one"]["cmds"]) >= 2)


SUBS = [
    Sub("duplicates", dup_cases, dup_oracle, 2500, 50000, shards=6, rule="at least three requests answered alike or modifications of the duplicate alone"),
    Sub("running", run_cases, run_oracle, 1200, 30000, shards=3, rule="duplicated neither before the first nor after the last command"),
    Sub("equality", eq_cases, eq_oracle, 6000, 150000, shards=3, rule="both objects of one kind"),
    Sub("patterns", pat_cases, pat_oracle, 2500, 60000, shards=3, rule="at least two commands"),
]
