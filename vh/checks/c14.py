"""C14: every randomised operation is a function of its arguments and the generator it is given.

Each case names an operation (simulation on each backend with each selector and noise model, direct backend
measurement, circuit simulation, random objects) and a seed; it is run twice with equally seeded generators under
different global random states.  Results and final generator states must agree, the default generator must be neither
announced nor advanced, global random state must not move, other seeds must give other results when enough bits are
drawn, and prescribed outcomes must hold exactly on the prescribed nodes.
"""
from __future__ import annotations

import random
import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from graphix import random_objects as ro
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.command import CommandKind
from graphix.measurements import PauliMeasurement
from graphix.noise_models import AmplitudeDampingNoiseModel, ComposeNoiseModel, DepolarisingNoiseModel, NoiseModel
from graphix.noise_models.depolarising import DepolarisingNoise
from graphix.noise_models.noise_model import ApplyNoise, NoiselessNoiseModel
from graphix.parameter import Placeholder
from graphix.rng import ensure_rng
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend
from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod
from vh import conv, gen, ref
from vh.core import Info, Sub, check

BITGENS = {"pcg": np.random.PCG64, "mt": np.random.MT19937, "philox": np.random.Philox}


def default_state() -> str:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return repr(ensure_rng(None).bit_generator.state)


def canon(x):  # noqa: ANN001, ANN201
    if isinstance(x, np.ndarray):
        return np.round(x, 9).tolist()
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items())}
    if isinstance(x, (np.integer, bool)):
        return int(x)
    return x


def noise_desc(cmds):  # noqa: ANN001, ANN201
    out = []
    for c in cmds:
        if c.kind == CommandKind.ApplyNoise:
            out.append(["noise", list(c.nodes), [[complex(k.coef), canon(np.asarray(k.operator))] for k in c.noise.to_krauschannel()]])
        else:
            out.append([repr(c)])
    return out


class DrawingNoise(NoiseModel):
    """User-defined noise model that draws random numbers in every hook."""

    def __init__(self) -> None:
        self.seen = []

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):  # noqa: ANN001, ANN202
        rng = ensure_rng(rng)
        return [ApplyNoise(noise=DepolarisingNoise(prob=float(rng.random())), nodes=[n]) for n in nodes]

    def command(self, cmd, rng=None, *, stacklevel=1):  # noqa: ANN001, ANN202
        rng = ensure_rng(rng)
        if cmd.kind == CommandKind.E:
            return [cmd, ApplyNoise(noise=DepolarisingNoise(prob=float(rng.random())), nodes=[cmd.nodes[0]])]
        return [cmd]

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):  # noqa: ANN001, ANN202
        rng = ensure_rng(rng)
        return 1 - result if rng.random() < 0.3 else result


class DrawingPrepare(DefaultPrepareMethod):
    """Preparation method that draws from the generator it is handed (as client-side preparations do)."""

    def __init__(self) -> None:
        self.drawn = []

    def prepare(self, backend, cmd, rng=None):  # noqa: ANN001, ANN201
        self.drawn.append(float(ensure_rng(rng).random()))
        super().prepare(backend, cmd, rng)


class Drawing(BranchSelector):
    """User-defined selector that draws from the generator it is handed."""

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):  # noqa: ANN001, ANN201
        r = ensure_rng(rng).random()
        p = f_expectation0()
        return int(r > p)


def selector(name, part):  # noqa: ANN001, ANN201
    return {
        "default": lambda: None,
        "random": RandomBranchSelector,
        "uniform": lambda: RandomBranchSelector(pr_calc=False),
        "fixed": lambda: FixedBranchSelector(part, default=RandomBranchSelector()),
        "fixed-uniform": lambda: FixedBranchSelector(part, default=RandomBranchSelector(pr_calc=False)),
        "fixed-fixed": lambda: FixedBranchSelector(dict(list(part.items())[:1]), default=FixedBranchSelector(part, default=RandomBranchSelector())),
        "user": Drawing,
    }[name]()


def noise(name):  # noqa: ANN001, ANN201
    dep = lambda: DepolarisingNoiseModel(prepare_error_prob=0.2, entanglement_error_prob=0.1, measure_error_prob=0.3, x_error_prob=0.1)  # noqa: E731
    amp = lambda: AmplitudeDampingNoiseModel(prepare_error_prob=0.2, entanglement_error_prob=0.1, measure_error_prob=0.4)  # noqa: E731
    return {
        "none": lambda: None, "noiseless": NoiselessNoiseModel, "dep": dep, "amp": amp, "draw": DrawingNoise,
        "compose": lambda: ComposeNoiseModel([dep(), amp()]),
        "compose-draw": lambda: ComposeNoiseModel([DrawingNoise(), dep()]),
        "nested": lambda: ComposeNoiseModel([NoiselessNoiseModel(), ComposeNoiseModel([amp(), DrawingNoise()])]),
    }[name]()


def make(case):  # noqa: ANN001, ANN201, C901
    """Returns (run(rng) -> canonical result, number of fair bits drawn)."""
    op = case["op"]
    k = case["k"]
    if op in ("sv", "dm", "tn"):
        d = case["pat"]
        p = conv.pattern(d)
        ms = ref.measured(d["cmds"])
        part = {q: (case["bits"] >> i) & 1 for i, q in enumerate(ms) if (case["mask"] >> i) & 1}
        nm = case["noise"] if op == "dm" else "none"
        sel = case["sel"]
        if op == "tn" and sel == "user":
            sel = "random"
        free = len(ms) - (len(part) if sel.startswith("fixed") else 0)

        def run(rng, reps=1):  # noqa: ANN001, ANN202
            out = []
            for _ in range(reps):
                kw = {}
                mm = DefaultMeasureMethod()
                prep = DrawingPrepare() if case["prep"] else None
                if prep:
                    kw["prepare_method"] = prep
                s = selector(sel, part)
                if case["inst"] and s is not None:
                    be = {"sv": lambda: StatevectorBackend(branch_selector=s), "dm": lambda: DensityMatrixBackend(branch_selector=s),  # noqa: B023
                          "tn": lambda: TensorNetworkBackend(p, branch_selector=s)}[op]()  # noqa: B023
                else:
                    be = {"sv": "statevector", "dm": "densitymatrix", "tn": "tensornetwork"}[op]
                    kw["branch_selector"] = s
                if op == "dm" and nm != "none":
                    kw["noise_model"] = noise(nm)
                state = p.simulate(be, rng=rng, measure_method=mm, **kw)
                res = {q: int(v) for q, v in mm.results.items()}
                if sel.startswith("fixed") and nm in ("none", "noiseless"):
                    bad = {q for q in part if res[q] != part[q]}
                    check(not bad, lambda: f"prescribed outcomes {part}, recorded {res}")  # noqa: B023
                if op == "tn":
                    arr = np.asarray(state.to_statevector())
                    # defined up to phase only
                    arr = np.outer(arr, arr.conj())
                elif op == "sv":
                    arr = state.flatten()
                else:
                    arr = state.rho
                out.append([canon(res), canon(np.array(arr)), prep.drawn if prep else None])
            return out

        return run, free if sel.endswith("uniform") and not part else (free if sel in ("default", "random", "user") else 0)
    if op == "circuit":
        q = conv.circuit(case["circ"])
        n = sum(1 for o in case["circ"]["ops"] if o[0] == "M")

        def run(rng, reps=1):  # noqa: ANN001, ANN202
            out = []
            for _ in range(reps):
                s = selector(case["sel"] if not case["sel"].startswith("fixed") else "default", {})
                be = "statevector" if k % 2 else "densitymatrix"
                if case["inst"] and s is not None:
                    b = StatevectorBackend(branch_selector=s) if k % 2 else DensityMatrixBackend(branch_selector=s)
                    r = q.simulate(b, rng=rng)
                else:
                    r = q.simulate(be, branch_selector=s, rng=rng)
                out.append([list(map(int, r.classical_measures)), canon(np.array(r.statevec.flatten() if hasattr(r, "statevec") else r.state.flatten()))])
            return out

        return run, 0
    if op == "measure":
        def run(rng, reps=1):  # noqa: ANN001, ANN202
            out = []
            for _ in range(reps):
                be = {0: StatevectorBackend, 1: DensityMatrixBackend}[k % 2]()
                be.add_nodes([1, 2, 3])
                be.entangle_nodes((1, 2))
                out.append([int(be.measure(n, PauliMeasurement(conv.AXES["Z"]), rng=rng)) for n in (2, 1, 3)])
            return out

        return run, 3
    if op == "tnmeasure":
        def run(rng, reps=1):  # noqa: ANN001, ANN202
            out = []
            for _ in range(reps):
                t = MBQCTensorNet(RandomBranchSelector(), graph_nodes=[0, 1, 2], graph_edges=[(0, 1), (1, 2)])
                out.append([int(t.measure_single(n, b, rng=rng)) for n, b in ((0, "X"), (1, "Y"), (2, "Z"))])
            return out

        return run, 3
    if op == "confuse":
        models = [noise(n) for n in ("dep", "amp", "compose", "compose-draw", "nested")]
        cmd = conv.cmd(["M", 0, ["B", "XY", 0.1], [], []])

        def run(rng, reps=1):  # noqa: ANN001, ANN202
            return [[int(m.confuse_result(cmd, i % 2, rng=rng)) for m in models] for i in range(reps)]

        return run, 4
    if op == "transpile-noise":
        d = case["pat"]
        p = conv.pattern(d)
        m = noise("compose-draw" if k % 2 else "nested")

        def run(rng, reps=1):  # noqa: ANN001, ANN202
            return [[noise_desc(m.input_nodes([0, 1], rng=rng)), noise_desc(m.transpile(p, rng=rng)), noise_desc([y for c in p for y in m.command(c, rng=rng)])] for _ in range(reps)]

        return run, 53
    dims = 1 + k % 4
    params = [Placeholder("a"), Placeholder("b")]
    ops = {
        "herm": lambda rng: ro.rand_herm(dims, rng), "unit": lambda rng: ro.rand_unit(dims, rng), "dm_": lambda rng: ro.rand_dm(dims, rng, rank=1 + k % dims),
        "gauss": lambda rng: ro.rand_gauss_cpx_mat(dims, rng, sig=[None, 0.5, "ginibre"][k % 3]),
        "channel": lambda rng: [(x.coef, x.operator) for x in ro.rand_channel_kraus(2 ** (1 + k % 2), rng, rank=1 + k % 4)],
        "pauli": lambda rng: [(x.coef, x.operator) for x in ro.rand_pauli_channel_kraus(2 ** (1 + k % 2), rng, rank=1 + k % 4)],
        "gate": lambda rng: repr(ro.rand_gate(1 + k % 4, 1 + k % 3, [(0, 1)] if k % 4 else [], rng, use_rzz=bool(k % 2))),
        "circ": lambda rng: repr(ro.rand_circuit(3 + k % 3, 1 + k % 5, rng, use_rzz=bool(k & 1), use_ccx=bool(k & 2), use_cz=bool(k & 4), use_j=bool(k & 8), parameters=params if k & 16 else None)),
        "vec": lambda rng: ro.rand_state_vector(k % 4, rng),
    }
    f = ops[op]

    def run(rng, reps=1):  # noqa: ANN001, ANN202
        return [canon(f(rng)) for _ in range(reps)]

    if op in ("pauli", "channel"):
        def run(rng, reps=1):  # noqa: ANN001, ANN202, F811
            return [[[complex(a), canon(b)] for a, b in f(rng)] for _ in range(reps)]
    bits = 0 if (op == "dm_" and dims == 1) or (op == "pauli" and k % 4 == 0) or (op == "vec" and k % 4 == 0) else 20
    return run, bits


def oracle(case, info: Info) -> None:  # noqa: ANN001
    run, bits = make(case)
    reps = case["reps"]
    warned = []

    def go(seed, glob, n):  # noqa: ANN001, ANN202
        np.random.seed(glob)
        random.seed(glob)
        before = (repr(np.random.get_state()), repr(random.getstate()), default_state())
        rng = np.random.Generator(BITGENS[case["gen"]](seed))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = run(rng, n)
        warned.extend(str(x.message) for x in w if "random-number generator" in str(x.message))
        after = (repr(np.random.get_state()), repr(random.getstate()), default_state())
        check(not warned, lambda: f"a generator was given, yet: {warned[0]}")
        check(before[2] == after[2], "the default generator was advanced")
        check(before[0] == after[0], "numpy's global random state was advanced")
        check(before[1] == after[1], "python's global random state was advanced")
        return out, repr(rng.bit_generator.state)

    s = case["seed"]
    a, sa = go(s, 1, reps)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ensure_rng(None).random(3)
    b, sb = go(s, 2, reps)
    check(a == b, lambda: f"same seed, different results:\n{str(a)[:600]}\n{str(b)[:600]}")
    check(sa == sb, "same seed, but the generators end in different states")
    info.label(case["op"])
    if case["op"] == "dm":
        info.label("noise " + case["noise"])
    if case["op"] in ("sv", "dm", "tn"):
        info.label("selector " + case["sel"])
    if bits:
        n = max(1, -(-48 // bits))
        if n <= 60:
            c, _ = go(s, 1, n)
            e, _ = go(s + 1, 1, n)
            check(c != e or case.get("det"), lambda: f"{case['op']}: the seed has no influence over {n} repetitions: {str(c)[:300]}")
            info.label("seeds differ")
            info.nt()
    info.nt(case["op"] in ("sv", "dm", "tn", "circuit"))


@st.composite
def strat(draw):  # noqa: ANN001, ANN201
    op = draw(st.sampled_from(["sv", "dm", "tn", "sv", "dm", "tn", "circuit", "circuit", "measure", "tnmeasure", "confuse", "transpile-noise",
                               "herm", "unit", "dm_", "gauss", "channel", "pauli", "gate", "circ", "vec"]))
    case = {"op": op, "seed": draw(st.integers(0, 2**32)), "gen": draw(st.sampled_from(sorted(BITGENS))), "reps": draw(st.integers(1, 3)), "k": draw(st.integers(0, 63))}
    if op in ("sv", "dm", "tn", "transpile-noise"):
        # deterministic patterns: uniform outcomes, so every measurement is a fair bit
        case["pat"] = draw(gen.det_patterns(max_meas=3 if op == "tn" else 4, max_out=2, min_meas=1, clifford=False))
        case["sel"] = draw(st.sampled_from(["default", "random", "uniform", "fixed", "fixed-uniform", "fixed-fixed", "user"]))
        case["noise"] = draw(st.sampled_from(["none", "noiseless", "dep", "amp", "draw", "compose", "compose-draw", "nested"]))
        case["inst"] = draw(st.booleans())
        case["prep"] = draw(st.sampled_from([False, False, True]))
        case["bits"] = draw(st.integers(0, 255))
        case["mask"] = draw(st.integers(0, 255))
    if op == "circuit":
        case["circ"] = draw(gen.circuits(max_width=3, max_ops=6, measure=True))
        case["sel"] = draw(st.sampled_from(["default", "random", "user"]))
        case["inst"] = draw(st.booleans())
    return case


def threads_oracle(case, info: Info) -> None:  # noqa: ANN001
    """Operations run in several threads at once, each with its generator, and the default generators of these threads."""
    works = [(make(c)[0], c) for c in case["works"]]

    def once(run, c):  # noqa: ANN001, ANN202
        rng = np.random.Generator(BITGENS[c["gen"]](c["seed"]))
        out = run(rng, c["reps"])
        return repr(out), repr(rng.bit_generator.state)

    results: list = [None] * len(works)
    defaults: list = [None] * len(works)
    start = threading.Barrier(len(works))
    end = threading.Barrier(len(works))

    def work(i):  # noqa: ANN001, ANN202
        run, c = works[i]
        start.wait(300)
        try:
            one = ensure_rng()
            results[i] = once(run, c)
            one.random()
            defaults[i] = (one, ensure_rng())
        except BaseException as e:  # noqa: BLE001
            results[i] = e
        finally:
            end.wait(300)

    interval = sys.getswitchinterval()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        alone = [once(run, c) for run, c in works]
        mine = ensure_rng()
        state = repr(mine.bit_generator.state)
        sys.setswitchinterval(1e-5)
        try:
            threads = [threading.Thread(target=work, args=(i,)) for i in range(len(works))]
            for t in threads:
                t.start()
            for t in threads:
                t.join(600)
        finally:
            sys.setswitchinterval(interval)
        check(ensure_rng() is mine, "the default generator of this thread was replaced")
    check(not any(t.is_alive() for t in threads), "a thread does not end")
    for (_, c), a, b in zip(works, alone, results):
        if isinstance(b, BaseException):
            raise b
        check(a == b, lambda: f"{c['op']}: the result in a thread differs from the result alone:\n{str(a)[:500]}\n{str(b)[:500]}")  # noqa: B023
        info.label(c["op"])
    check(all(x is y for x, y in defaults), "a thread does not keep its default generator")
    gens = [mine, *(x for x, _ in defaults)]
    check(len({id(x) for x in gens}) == len(gens), "two threads share a default generator")
    check(repr(mine.bit_generator.state) == state, "the default generator of this thread was advanced by another")
    info.nt(len(works) >= 2)


@st.composite
def works(draw):  # noqa: ANN001, ANN201
    return {"works": draw(st.lists(strat().filter(lambda c: c["op"] not in ("tn", "tnmeasure")), min_size=2, max_size=5))}


SUBS = [
    Sub("reproducible", strat, oracle, quick=900, thorough=20000, shards=7, rule="a simulation, or an operation whose seeds were also compared"),
    Sub("threads", works, threads_oracle, quick=250, thorough=6000, shards=3, rule="at least two operations run at once"),
]
