"""C40: warnings are issued exactly when they apply, and are reported where the library was called.

The call of the library stands on one line of a small function (level 1), called from one line of another (level 2), called
from one line of a third (level 3).  The kinds of the warnings recorded are compared with those a model predicts from the
description of the case alone, and the place each of them names with the level asked for.
"""
from __future__ import annotations

import tempfile
import warnings
from pathlib import Path
from typing import Any, Callable

import matplotlib as mpl
import numpy as np
from hypothesis import strategies as st

from graphix import random_objects
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.flow.exceptions import FlowError
from graphix.fundamentals import Plane
from graphix.measurements import BlochMeasurement, Measurement
from graphix.noise_models.amplitude_damping import AmplitudeDampingNoiseModel
from graphix.noise_models.depolarising import DepolarisingNoiseModel
from graphix.noise_models.noise_model import ComposeNoiseModel, NoiselessNoiseModel, NoiseModel
from graphix.opengraph import OpenGraphError
from graphix.optimization import StandardizedPattern
from graphix.parameter import Placeholder
from graphix.pattern import DrawPatternAnnotations, PatternError
from graphix.remove_pauli_measurements import PauliPushingCut, remove_pauli_measurements
from graphix.rng import ensure_rng
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.sim.tensornet import TensorNetworkBackend
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
from graphix.states import BasicStates
from vh import conv, gen
from vh.core import Info, Sub, check

mpl.use("Agg")

KINDS = [
    ("rng", "random-number generator"),
    ("noiseless", "with no noise"),
    ("og-pauli", "Open graph with non-inferred Pauli"),
    ("pattern-pauli", "Pattern with non-inferred Pauli"),
    ("leave", "`leave_nodes` contains"),
    ("clifford-edge", "Standardization might not be possible"),
    ("preserve", "`preserve_mapping = True` ignored"),
    ("isolated", "isolated node"),
    ("no-flow", "not consistent with a flow"),
    ("deprecated", "is deprecated"),
]


def level2(fn: Callable[[], Any]) -> Any:
    return fn()


def level3(fn: Callable[[], Any]) -> Any:
    return level2(fn)


def level4(fn: Callable[[], Any]) -> Any:
    return level3(fn)


HERE = level2.__code__.co_filename


def kind_of(message: str) -> str | None:
    return next((k for k, text in KINDS if text in message), None)


def request(info: Info, what: str, level: int, wanted: set[str], fn: Callable[..., Any], *args: Any, may: Any = (), anywhere: Any = (), refused: Any = (), **kw: Any) -> Any:
    """Call ``fn`` with the stack level asked for (none given for level 0) and compare the warnings it issues with those wanted."""
    result = None
    call = lambda: fn(*args, **kw)  # noqa: E731  (the call on the line of the function itself)
    if level:
        kw["stacklevel"] = level
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            result = level4(call)
        except refused as e:
            info.label(f"{what} refused: {type(e).__name__}")
            may, wanted = {*may, *wanted}, set()
    place = [call.__code__, call.__code__, level2.__code__, level3.__code__][level]
    line = place.co_firstlineno + (place is not call.__code__)
    kinds: set[str] = set()
    for w in got:
        if w.category is not UserWarning:
            continue
        k = kind_of(str(w.message))
        if k is None:
            check("graphix" not in Path(w.filename).parts and w.filename != HERE, lambda: f"{what}: unexpected warning: {w.message}")  # noqa: B023
            continue
        kinds.add(k)
        if k not in anywhere:
            check((w.filename, w.lineno) == (HERE, line), lambda: f"{what} (stack level {level or 'not given'}): warning {str(w.message)[:60]!r} reported at {w.filename}:{w.lineno} instead of {HERE}:{line}")  # noqa: B023
    check(wanted <= kinds <= wanted | set(may), lambda: f"{what}: warnings {sorted(kinds)} instead of {sorted(wanted)}")
    info.label(f"{what}: {'+'.join(sorted(kinds)) or 'silent'}", f"stack level {level or 'not given'}", *kinds)
    return result


def pauli_like(m: list[Any]) -> bool:
    """Whether a described measurement is given by an angle but along an axis."""
    return m[0] == "B" and abs(2 * m[2] - round(2 * m[2])) < 1e-9


LEVELS = st.sampled_from([0, 0, 1, 2, 3])


# ------------------------------------------------------------------ simulations


class Seen(BranchSelector):
    """Passes requests on and keeps the generators received."""

    def __init__(self, inner: BranchSelector) -> None:
        self.inner = inner
        self.rngs: list[Any] = []

    def measure(self, qubit: int, f_expectation0: Any, rng: Any = None, *, stacklevel: int = 1) -> Any:
        self.rngs.append(rng)
        return self.inner.measure(qubit, f_expectation0, rng=rng, stacklevel=stacklevel + 1)


class SeenNoise(NoiseModel):
    def __init__(self, inner: NoiseModel) -> None:
        self.inner = inner
        self.rngs: list[Any] = []

    def input_nodes(self, nodes: Any, rng: Any = None, *, stacklevel: int = 1) -> Any:
        self.rngs.append(rng)
        return self.inner.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)

    def command(self, cmd: Any, rng: Any = None, *, stacklevel: int = 1) -> Any:
        self.rngs.append(rng)
        return self.inner.command(cmd, rng=rng, stacklevel=stacklevel + 1)

    def confuse_result(self, cmd: Any, result: Any, rng: Any = None, *, stacklevel: int = 1) -> Any:
        self.rngs.append(rng)
        return self.inner.confuse_result(cmd, result, rng=rng, stacklevel=stacklevel + 1)


SELECTORS = ["none", "random", "uniform", "const", "fixed", "fixed-random", "fixed-const", "nested"]
NOISES = ["none", "none", "none", "noiseless", "depolarising", "damping", "composed"]


@st.composite
def sim_cases(draw: Any) -> dict[str, Any]:
    backend = draw(st.sampled_from(["statevector", "densitymatrix", "densitymatrix", "tensornetwork"]))
    if backend == "tensornetwork":
        d = draw(gen.soups(max_active=3, max_total=5, max_steps=12, clifford=False, states=False, outputs=True))
    else:
        d = draw(gen.soups(max_active=3, max_total=5, max_steps=12, outputs=draw(st.sampled_from([True, True, None]))))
    return {
        "pattern": d, "backend": backend, "instance": draw(st.integers(0, 3)) == 0,
        "way": draw(st.sampled_from(["simulate", "run", "run"])), "selector": draw(st.sampled_from(SELECTORS)), "fixed": draw(st.integers(0, 31)),
        "noise": draw(st.sampled_from(NOISES)), "rng": draw(st.sampled_from([None, None, 1])), "level": draw(LEVELS), "seen": draw(st.booleans()), "quiet": draw(st.booleans()),
    }


def selector(name: str, measured: list[int], mask: int) -> tuple[BranchSelector | None, set[int]]:
    """The selector and the measured nodes whose outcome it draws."""
    known = {v: (mask >> i) & 1 for i, v in enumerate(measured) if (mask >> (i + 2)) & 1}
    rest = set(measured) - set(known)
    if name == "none":
        return None, set(measured)
    if name == "random":
        return RandomBranchSelector(), set(measured)
    if name == "uniform":
        return RandomBranchSelector(pr_calc=False), set(measured)
    if name == "const":
        return ConstBranchSelector(1 if mask % 2 else 0), set()
    if name == "fixed":
        return FixedBranchSelector({v: (mask >> i) & 1 for i, v in enumerate(measured)}), set()  # type: ignore[arg-type]
    if name == "fixed-random":
        return FixedBranchSelector(known, default=RandomBranchSelector()), rest  # type: ignore[arg-type]
    if name == "fixed-const":
        return FixedBranchSelector(known, default=ConstBranchSelector(0)), set()  # type: ignore[arg-type]
    half = dict(list(known.items())[::2])
    other = dict(list(known.items())[1::2])
    return FixedBranchSelector(half, default=FixedBranchSelector(other, default=RandomBranchSelector())), rest  # type: ignore[arg-type]


def impossible(case: Any) -> Any:
    """What may be raised when the outcomes asked for cannot happen."""
    return () if case["selector"] in ("none", "random") else (RuntimeError, ValueError, AssertionError)


def noise(name: str) -> NoiseModel | None:
    if name == "none":
        return None
    if name == "noiseless":
        return NoiselessNoiseModel()
    if name == "depolarising":
        return DepolarisingNoiseModel(measure_error_prob=0.25, x_error_prob=0.1)
    if name == "damping":
        return AmplitudeDampingNoiseModel(measure_error_prob=0.25, x_error_prob=0.1)
    return ComposeNoiseModel([NoiselessNoiseModel(), DepolarisingNoiseModel(measure_error_prob=0.125)])


def sim_oracle(case: Any, info: Info) -> None:
    d = case["pattern"]
    p = conv.pattern(d)
    measured = [c[1] for c in d["cmds"] if c[0] == "M"]
    backend = case["backend"]
    if backend == "tensornetwork" and not d["out"]:
        backend = "statevector"
    sel, drawn = selector(case["selector"], measured, case["fixed"])
    nm = noise(case["noise"]) if backend == "densitymatrix" else None
    given = None if case["rng"] is None else np.random.default_rng(case["rng"])
    seen_sel = Seen(sel) if sel is not None and case["seen"] else None
    seen_nm = SeenNoise(nm) if nm is not None and case["seen"] else None
    kw: dict[str, Any] = {}
    b: Any = backend
    if not case["instance"]:
        if sel is not None:
            kw["branch_selector"] = seen_sel or sel
    elif backend == "tensornetwork":
        b = TensorNetworkBackend(p, branch_selector=seen_sel or sel)
    else:
        cls: Any = StatevectorBackend if backend == "statevector" else DensityMatrixBackend
        b = cls() if sel is None else cls(branch_selector=seen_sel or sel)
    if nm is not None:
        kw["noise_model"] = seen_nm or nm
    noiseless = {"noiseless"} if backend == "densitymatrix" and not case["instance"] and nm is None else set()
    random_noise = nm is not None and case["noise"] != "noiseless" and measured
    draws = {"rng"} if given is None and (drawn or random_noise) else set()
    level = case["level"]
    method = DefaultMeasureMethod()
    if case["way"] == "simulate":
        request(info, f"simulate {backend}", level, noiseless | draws, p.simulate, backend=b, rng=given, measure_method=method, refused=impossible(case), **kw)
    else:
        sim = request(info, f"PatternSimulator {backend}", level, noiseless, PatternSimulator, p, backend=b, measure_method=method, **kw)
        request(info, f"run {backend}", level, draws, sim.run, rng=given, refused=impossible(case))
    for s in (seen_sel, seen_nm):
        if s is not None:
            check(all(r is given for r in s.rngs), lambda: f"a component received another generator than the one given ({given}): {s.rngs}")  # noqa: B023
    info.label(f"selector {case['selector']}", *([f"noise {case['noise']}"] if nm is not None else []), "generator given" if given is not None else "no generator")
    info.nt(len(measured) >= 1)


# ------------------------------------------------------------------ other random requests


@st.composite
def random_cases(draw: Any) -> dict[str, Any]:
    return {"what": draw(st.integers(0, 99)), "n": draw(st.integers(1, 3)), "rng": draw(st.sampled_from([None, None, 1])), "level": draw(LEVELS),
            "circuit": draw(gen.circuits(max_width=3, max_ops=6, ccx_limit=1, measure=True)), "selector": draw(st.sampled_from(SELECTORS)), "fixed": draw(st.integers(0, 31)),
            "dm": draw(st.booleans()), "instance": draw(st.booleans()), "plane": draw(st.integers(0, 2)), "angle": draw(gen.angles()), "seen": draw(st.booleans())}


OBJECTS: list[tuple[str, Callable[[int], tuple[Any, ...]]]] = [
    ("rand_herm", lambda n: (2**n,)), ("rand_unit", lambda n: (2**n,)), ("rand_dm", lambda n: (2**n,)), ("rand_gauss_cpx_mat", lambda n: (n + 1,)),
    ("rand_channel_kraus", lambda n: (2,)), ("rand_pauli_channel_kraus", lambda n: (2,)), ("rand_gate", lambda n: (n + 1, n, [(i, i + 1) for i in range(n)])),
    ("rand_circuit", lambda n: (n + 1, n)), ("rand_state_vector", lambda n: (n,)),
]


def random_oracle(case: Any, info: Info) -> None:
    n, level, what = case["n"], case["level"], case["what"] % 18
    given = None if case["rng"] is None else np.random.default_rng(case["rng"])
    draws = {"rng"} if given is None else set()
    info.nt()
    if what < 9:
        name, args = OBJECTS[what]
        request(info, name, level, draws, getattr(random_objects, name), *args(n), rng=given)
        return
    if what == 9:
        got = request(info, "ensure_rng", level, draws, ensure_rng, given)
        check(isinstance(got, np.random.Generator) and (given is None or got is given), "ensure_rng: not the generator given")
        return
    sel, drawn = selector(case["selector"], [0], case["fixed"])
    if what == 10:
        s = sel or RandomBranchSelector()
        request(info, f"{type(s).__name__}.measure", level, draws if drawn else set(), s.measure, 0, lambda: 0.25, rng=given)
        return
    if what in (11, 12):
        model = noise(["noiseless", "depolarising", "damping", "composed"][case["fixed"] % 4])
        assert model is not None
        cmd = conv.cmd(["M", 0, ["B", "XY", case["angle"]], [], []])
        kind = type(model).__name__
        request(info, f"{kind}.confuse_result", level, draws if case["fixed"] % 4 else set(), model.confuse_result, cmd, case["fixed"] % 2, rng=given)
        request(info, f"{kind}.command", level, set(), model.command, cmd, rng=given)
        request(info, f"{kind}.input_nodes", level, set(), model.input_nodes, [0, 1], rng=given)
        request(info, f"{kind}.transpile", level, set(), model.transpile, [cmd], rng=given)
        return
    seen = Seen(sel) if sel is not None and case["seen"] else None
    cls: Any = DensityMatrixBackend if case["dm"] else StatevectorBackend
    if what == 13:
        b = cls() if sel is None else cls(branch_selector=seen or sel)
        b.add_nodes([0], BasicStates.PLUS)
        request(info, f"{cls.__name__}.measure", level, draws if drawn else set(), b.measure, 0, BlochMeasurement(case["angle"], list(Plane)[case["plane"]]), rng=given, refused=impossible(case))
    elif what == 14:
        b = cls() if sel is None else cls(branch_selector=seen or sel)
        b.add_nodes([0], BasicStates.PLUS)
        cmd = conv.cmd(["M", 0, ["B", "XZ", case["angle"]], [], []])
        request(info, "DefaultMeasureMethod.measure", level, draws if drawn else set(), DefaultMeasureMethod().measure, b, cmd, rng=given, refused=impossible(case))
    else:
        c = conv.circuit(case["circuit"])
        measured = [op[1] for op in case["circuit"]["ops"] if op[0] == "M"]
        sel, drawn = selector(case["selector"], measured, case["fixed"])
        seen = Seen(sel) if sel is not None and case["seen"] else None
        kw: dict[str, Any] = {}
        if case["instance"]:
            kw["backend"] = cls() if sel is None else cls(branch_selector=seen or sel)
        else:
            kw["backend"] = "densitymatrix" if case["dm"] else "statevector"
            if sel is not None:
                kw["branch_selector"] = seen or sel
        request(info, "Circuit.simulate", level, draws if drawn else set(), c.simulate, rng=given, refused=impossible(case), **kw)
    if seen is not None:
        check(all(r is given for r in seen.rngs), lambda: f"a component received another generator than the one given ({given}): {seen.rngs}")


# ------------------------------------------------------------------ measurements given by an angle along an axis


@st.composite
def pauli_cases(draw: Any) -> dict[str, Any]:
    og = draw(gen.gflow_graphs(max_out=3, max_meas=5, min_meas=draw(st.sampled_from([0, 1, 2])), pauli_bias=draw(st.booleans())))
    words = [draw(st.sampled_from(conv.CLIFF_WORDS)) for _ in og["out"]] if draw(st.integers(0, 3)) == 0 else None
    return {"og": og, "pattern": gen.og_pattern(og, draw(st.integers(0, 2)), words), "what": draw(st.integers(0, 99)), "leave": draw(st.integers(0, 63)),
            "level": draw(LEVELS), "copy": draw(st.booleans()), "standardize": draw(st.booleans()), "infer": draw(st.integers(0, 3)) == 0, "parameter": draw(st.integers(0, 7))}


SILENT = ["standardize", "shift_signals", "minimize_space", "to_opengraph", "to_xzcorrections", "to_pauliflow", "to_ascii", "to_latex", "to_unicode", "infer_pauli_measurements", "to_bloch",
          "remove_local_clifford_commands", "remove_input_nodes", "copy", "max_space", "check_runnability", "extract_partial_order_layers", "compute_max_degree", "max_degree"]


def pauli_oracle(case: Any, info: Info) -> None:
    d, level = case["pattern"], case["level"]
    p = conv.pattern(d)
    meas = {c[1]: c[2] for c in d["cmds"] if c[0] == "M"}
    if case["infer"]:
        p = p.infer_pauli_measurements(copy=True)
        meas = {v: ["P"] if pauli_like(m) else m for v, m in meas.items()}
    elif case["parameter"] < 2 and meas:
        # angles that are not numbers are along no axis
        x = Placeholder("x")
        p = p.map(lambda m: BlochMeasurement(x + m.angle, m.plane) if isinstance(m, BlochMeasurement) and (case["parameter"] or m.plane == Plane.XY) else m)
        meas = {v: ["S"] if m[0] == "B" and (case["parameter"] or m[1] == "XY") else m for v, m in meas.items()}
    along = [v for v, m in meas.items() if pauli_like(m)]
    of_pattern = {"pattern-pauli"} if along else set()
    of_graph = {"og-pauli"} if along else set()
    left = {v for i, v in enumerate(sorted(meas)) if (case["leave"] >> i) & 1}
    of_leave = {"leave"} if any(meas[v][0] != "P" for v in left) else set()
    info.label(f"{min(len(along), 3)} angles along an axis", *(["parameters"] if any(m == ["S"] for m in meas.values()) else []), *(["inferred"] if case["infer"] else []))
    info.nt(len(meas) >= 2)
    what = case["what"] % 16
    q = p.copy()
    if what == 0:
        request(info, "Pattern.perform_pauli_pushing", level, of_pattern | of_leave, q.perform_pauli_pushing, leave_nodes=left or None, copy=case["copy"], standardize=case["standardize"])
    elif what == 1:
        request(info, "Pattern.remove_pauli_measurements", level, of_pattern, q.remove_pauli_measurements, copy=case["copy"], standardize=case["standardize"], may=("isolated",))
    elif what == 2:
        s = StandardizedPattern.from_pattern(p)
        request(info, "StandardizedPattern.perform_pauli_pushing", level, of_pattern | of_leave, s.perform_pauli_pushing, left)
    elif what == 3:
        s = StandardizedPattern.from_pattern(p)
        cut = request(info, "PauliPushingCut.from_standardizedpattern", level, of_pattern | of_leave, PauliPushingCut.from_standardizedpattern, s, left)
        request(info, "remove_pauli_measurements", level, set(), remove_pauli_measurements, cut, may=("isolated",))
    elif what == 4:
        request(info, "OpenGraph.to_pauliflow", level, of_graph, p.to_opengraph().to_pauliflow, refused=(OpenGraphError,))
    elif what == 5:
        request(info, "OpenGraph.to_pauliflow_or_none", level, of_graph, p.to_opengraph().to_pauliflow_or_none)
    elif what == 6:
        # the flow is looked for once with the caller's level; what is issued further inside carries no level
        refused: tuple[Any, ...] = (OpenGraphError, ValueError, NotImplementedError) if len(d["in"]) == len(d["out"]) else (Exception,)
        if not any(m == ["S"] for m in meas.values()):
            og = p.to_opengraph()
            if words_of(d) == []:
                got: list[Any] = []
                request(info, "OpenGraph.to_circuit", level, of_graph, lambda **kw: got.append(og.to_circuit(**kw)), anywhere=("og-pauli",), refused=refused)
    elif what == 7:
        og = p.to_opengraph().to_bloch() if not any(m == ["S"] for m in meas.values()) else None
        if og is not None:
            for name in ("to_causalflow_or_none", "to_gflow_or_none"):
                request(info, f"OpenGraph.{name}", 0, set(), getattr(og, name))
            request(info, "OpenGraph.to_pauliflow_or_none after to_bloch", level, {"og-pauli"} if any(m[0] == "P" or pauli_like(m) for m in meas.values()) else set(), og.to_pauliflow_or_none)
    elif what == 8:
        og = p.to_opengraph().infer_pauli_measurements()
        request(info, "OpenGraph.to_pauliflow_or_none after inference", level, set(), og.to_pauliflow_or_none)
        request(info, "Pattern.perform_pauli_pushing after inference", level, set(), p.infer_pauli_measurements(copy=True).perform_pauli_pushing)
    elif what == 9:
        request(info, "OpenGraph.to_pattern", level, set(), p.to_opengraph().to_pattern, refused=(OpenGraphError,), may=("og-pauli",))
    else:
        name = SILENT[case["what"] % len(SILENT)]
        if hasattr(q, name):
            request(info, f"Pattern.{name}", 0, set(), getattr(q, name), refused=(Exception,))


def words_of(d: dict[str, Any]) -> list[Any]:
    return [c for c in d["cmds"] if c[0] == "C"]


# ------------------------------------------------------------------ composition


@st.composite
def compose_cases(draw: Any) -> dict[str, Any]:
    one = draw(gen.soups(max_active=3, max_total=5, max_steps=10, outputs=True))
    two = draw(gen.soups(max_active=3, max_total=5, max_steps=10, max_inputs=3, outputs=True))
    return {"one": one, "two": two, "pairs": draw(st.integers(0, 3)), "preserve": draw(st.booleans()), "extra": draw(st.booleans()), "order": draw(st.integers(0, 99))}


def compose_oracle(case: Any, info: Info) -> None:
    one, two = case["one"], case["two"]
    p, q = conv.pattern(one), conv.pattern(two)
    outs, ins = list(one["out"]), list(two["in"])
    k = min(case["pairs"], len(outs), len(ins))
    shift = case["order"] % max(len(outs), 1)
    mapping = dict(zip(ins, (outs[shift:] + outs[:shift])[:k]))
    if case["extra"]:
        spare = [v for v in sorted(q.nodes()) if v not in mapping][:1]
        mapping.update({v: 1000 for v in spare})
    merged = len(set(mapping.values()) & set(outs))
    wanted = set()
    if any(c[0] == "C" for c in one["cmds"]) and any(c[0] == "E" for c in two["cmds"]):
        wanted.add("clifford-edge")
    if case["preserve"] and not merged == len(ins) == len(two["out"]):
        wanted.add("preserve")
    request(info, "Pattern.compose", 0, wanted, p.compose, q, mapping, preserve_mapping=case["preserve"])
    info.label(f"{merged} merged", *(["all merged"] if merged == len(ins) == len(two["out"]) else []))
    info.nt(len(one["cmds"]) >= 1 and len(two["cmds"]) >= 1)


# ------------------------------------------------------------------ drawing


@st.composite
def draw_cases(draw: Any) -> dict[str, Any]:
    d = draw(gen.det_patterns(clifford=False, max_meas=3, min_meas=1, max_out=2, pauli_bias=draw(st.booleans())))
    drop = draw(st.sampled_from([0, 1, 2, 3, 5, 7, 255]))
    return {"pattern": d, "drop": drop, "from_pattern": draw(st.integers(0, 3)) > 0, "annotations": draw(st.sampled_from(["Flow", "Flow", "Flow", "XZCorrections", "none"])), "level": draw(LEVELS)}


def draw_oracle(case: Any, info: Info) -> None:
    cmds = []
    for c in case["pattern"]["cmds"]:
        # some of the dependencies are dropped: the pattern need not follow a flow any more
        if c[0] == "M":
            c = [*c[:3], [] if case["drop"] & 1 else c[3], [] if case["drop"] & 2 else c[4]]
        elif c[0] in "XZ" and case["drop"] & 4:
            continue
        cmds.append(c)
    p = conv.pattern({**case["pattern"], "cmds": cmds})
    consistent = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            p.to_xzcorrections().to_pauliflow()
        except FlowError:
            consistent = False
    flow = case["annotations"] == "Flow"
    wanted = {"no-flow"} if flow and case["from_pattern"] and not consistent else set()
    along = any(c[0] == "M" and pauli_like(c[2]) for c in cmds)
    may = {"og-pauli"} if flow and along and (wanted or not case["from_pattern"]) else set()
    ann = None if case["annotations"] == "none" else DrawPatternAnnotations[case["annotations"]]
    with tempfile.TemporaryDirectory() as tmp:
        request(info, "Pattern.draw", case["level"], wanted, p.draw, annotations=ann, flow_from_pattern=case["from_pattern"], filename=Path(tmp) / "x.png", may=may, refused=(PatternError,))
    info.nt(flow and bool(cmds))


# ------------------------------------------------------------------ deprecated options


@st.composite
def prep_cases(draw: Any) -> dict[str, Any]:
    return {"circuit": draw(gen.circuits(max_width=2, max_ops=3, gates=["H", "S", "CZ"])), "prep": draw(st.sampled_from(["opt", "auto", "parallel", "sequential"])), "way": draw(st.booleans())}


def prep_oracle(case: Any, info: Info) -> None:
    p = conv.circuit(case["circuit"]).transpile().pattern
    p.standardize()
    wanted = {"deprecated"} if case["prep"] == "opt" else set()
    messages: list[str] = []

    def build() -> Any:
        if case["way"]:
            return TensorNetworkBackend(p, graph_prep=case["prep"])
        return p.simulate(backend="tensornetwork", graph_prep=case["prep"], branch_selector=ConstBranchSelector(0))

    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        build()
    messages = [str(w.message) for w in got if kind_of(str(w.message))]
    check({kind_of(m) for m in messages} == wanted, lambda: f"graph_prep={case['prep']!r}: warnings {messages}")
    if wanted:
        check(all("'opt'" in m and "'parallel'" in m for m in messages), lambda: f"the warning about graph_prep='opt' does not name it: {messages}")
    info.label(f"prep {case['prep']}")
    info.nt(case["prep"] == "opt")


SUBS = [
    Sub("simulations", sim_cases, sim_oracle, 2500, 60000, shards=6, rule="the pattern measures at least one qubit"),
    Sub("randomness", random_cases, random_oracle, 2500, 60000, shards=4, rule="every case"),
    Sub("paulis", pauli_cases, pauli_oracle, 3000, 60000, shards=6, rule="the pattern measures at least two qubits"),
    Sub("composition", compose_cases, compose_oracle, 1500, 40000, shards=4, rule="both patterns have commands"),
    Sub("drawing", draw_cases, draw_oracle, 120, 2500, shards=4, rule="the flow is to be shown"),
    Sub("preparation", prep_cases, prep_oracle, 60, 1000, shards=1, rule="the deprecated option is asked for"),
]
