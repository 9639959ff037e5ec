"""C42: answers depend on the arguments (and seeds) only, not on the process in which they are computed.

A generated history of requests on objects of many kinds (as in C38), or a list of randomised operations with their seeds
(as in C14), is carried out twice: in a fresh fork of this interpreter, and in a fork of another interpreter with another
hash seed, locale, time zone and working directory, which may first have carried out another history altogether and drawn from the
global generators.  All answers, and the readings of all objects at every step, must agree.  Every request on an object is also compared with the
same request after all requests were carried out on nearly the same object, and every randomised operation with itself after others.
"""
from __future__ import annotations

import copy
import random
import re
import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from graphix.command import CommandKind
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, ComplexUnit, Plane, Sign
from graphix.instruction import InstructionKind
from graphix.ops import Ops
from graphix.pauli import Pauli
from graphix.pretty_print import OutputFormat, default_output_format
from graphix.rng import ensure_rng
from vh import procs
from vh.checks import c14, c38
from vh.core import HarnessError, Info, Sub, check

OTHERS: dict[tuple[str, int], procs.Other] = {}


def other(function: str, hashseed: int) -> procs.Other:
    import os

    key = (function, hashseed, os.getpid())
    if key not in OTHERS:
        OTHERS[key] = procs.Other(function, hashseed)  # type: ignore[index]
    return OTHERS[key]  # type: ignore[index]


def requests(case: Any) -> list[Any]:
    """The answers of a history, with the readings of what they changed or created."""
    info = Info({})
    w = c38.world(case, info)
    log: list[Any] = [[k, r] for k, _, r in w.pool]
    for i, j, arg in case["steps"]:
        n = len(w.done)
        w.step(i, j, arg)
        log.append([w.done[-1] if len(w.done) > n else None, sorted(info.labels), w.answer if len(w.done) > n else None, [r for _, _, r in w.pool]])
    return plain(log)


def plain(x: Any) -> Any:
    """Without addresses of objects (of which the default texts consist)."""
    if isinstance(x, str):
        return re.sub(r" at 0x[0-9a-f]+", "", x)
    return type(x)(map(plain, x)) if isinstance(x, (list, tuple)) else x


def randomised(case: Any) -> list[Any]:
    run, _ = c14.make(case)
    rng = np.random.Generator(c14.BITGENS[case["gen"]](case["seed"]))
    return [repr(run(rng, case["reps"])), repr(rng.bit_generator.state)]


TURN = {w: ws[(i + 1) % len(ws)] for ws in (["XY", "YZ", "XZ"], ["X", "Y", "Z"], ["H", "S"], ["+", "-"], ["PLUS", "MINUS"], ["RX", "RY", "RZ"]) for i, w in enumerate(ws)}


def leaves(x: Any) -> list[tuple[Any, Any]]:
    """Where the names, numbers, flags and small lists of a description stand."""
    if not isinstance(x, (list, dict)):
        return []
    out = []
    for k, y in x.items() if isinstance(x, dict) else enumerate(x):
        if isinstance(y, (bool, float)) or (isinstance(y, int) and y < 0) or (isinstance(y, str) and y in TURN):
            out.append((x, k))
        elif isinstance(y, list) and 0 < len(y) <= 3 and all(isinstance(z, int) for z in y):
            out.append((x, k))
        else:
            out += leaves(y)
    return out


def near(case: Any, seed: int) -> Any:
    """Almost the same history: the same requests, on objects that differ in a few details."""
    r = random.Random(seed)
    case = copy.deepcopy(case)
    spots = leaves({k: v for k, v in case.items() if k != "steps"})
    for x, k in r.sample(spots, min(len(spots), r.choice([1, 1, 2, 3, 5]))):
        y = x[k]
        if isinstance(y, str):
            x[k] = TURN[y]
        elif isinstance(y, bool):
            x[k] = not y
        elif isinstance(y, list):
            x[k] = y[::-1] if r.random() < 0.5 else y[:-1]
        else:
            x[k] = r.choice([y + 0.25, y + 0.5, -y, y + 1, 0.0]) if isinstance(y, float) else -y
    return case


def work(case: Any) -> list[Any]:
    """Run in a fork: what comes before must not matter for what follows."""
    before = list(case["before"])
    if case["near"] and case["main"][0][0] == "requests" and not case["here"]:
        before += [["near", near(case["main"][0][1], seed)] for seed in case["near"]]
    for kind, c in before:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ensure_rng(None).random(1 + case["noise"] % 7)
            np.random.seed(case["noise"])
            random.seed(case["noise"] + 1)
            try:
                (randomised if kind == "randomised" else requests)(c)
            except Exception:  # noqa: BLE001
                if kind != "near":  # which may describe no object at all
                    raise
    return [(requests if kind == "requests" else randomised)(c) for kind, c in case["main"]] + [tables()]


def first_difference(a: Any, b: Any, path: str = "") -> str:
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}[{i}]")
    return f"at {path}:\n{str(a)[:1500]}\nelsewhere\n{str(b)[:1500]}"


def attempt(fn: Any, *args: Any) -> tuple[Any, Any]:
    """What comes of a request, and how it reads."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = fn(*args)
        return x, c38.fp(x)
    except c38.Skip:
        return None, "skipped"
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001  (what may be refused is the matter of other properties)
        return None, type(e).__name__


def everything(case: Any) -> list[Any]:
    """The answers to all requests on the objects of a case, and on one object of every kind derived from them."""
    info = Info({})
    arg = case["arg"]
    w = c38.world(case, info)
    todo = [(k, x) for k, x, _ in w.pool]
    seen = {k for k, _ in todo}
    log: list[Any] = [[k, r] for k, _, r in w.pool]
    while todo:
        kind, x = todo.pop(0)
        for name, fn in c38.PURE.get(kind, []):
            got, reading = attempt(fn, w, x, arg)
            log.append([f"{kind}.{name}", reading])
            for y in got if isinstance(got, (list, tuple)) and len(got) <= 4 else [got]:
                k = c38.kind_of(y)
                if k is not None and k not in seen and not c38.too_large(y):
                    seen.add(k)
                    todo.append((k, y))
    for i, (kind, _, _) in enumerate(c38.world(case, info).pool):
        for name, fn in c38.CHANGE.get(kind, []):
            v = c38.world(case, info)
            _, reading = attempt(fn, v, v.pool[i][1], arg)
            log.append([f"{kind}.{name}", reading, [c38.fp(x) for _, x, _ in v.pool]])
    return plain(log)


def tables() -> list[Any]:
    """What the package enumerates."""
    return [list(map(str, Pauli.iterate())), list(map(str, Pauli.iterate(symbol_only=True))), list(map(str, Clifford)), list(map(str, [*Axis, *Plane, *Sign, *ComplexUnit])),
            [Ops.build_tensor_pauli_ops(n).tolist() for n in (1, 2)], [repr(f) for f in OutputFormat], default_output_format.get().name, [k.name for k in CommandKind], [k.name for k in InstructionKind]]


def twins_work(case: Any) -> list[Any]:
    main = {**case["objects"], "arg": case["arg"]}
    for seed in case["near"]:
        try:
            everything(near(main, seed))
        except Exception:  # noqa: BLE001  (the description of no object)
            pass
    if case["twice"]:
        everything(main)
    return [everything(main), tables() if case["tables"] else []]


def randomised_work(case: Any) -> list[Any]:
    r = random.Random(case["order"])
    for i in r.choices(range(len(case["ops"])), k=case["before"]):
        randomised({**case["ops"][i], "seed": r.randrange(2**20), "reps": 1 + r.randrange(2)})
    return [randomised(c) for c in case["ops"]]


def same(work: Any, case: Any, blank: Any) -> Any:
    a = procs.isolated(work, {**case, **blank})
    b = procs.isolated(work, case)
    for s, x in (a, b):
        if s == "harness":
            raise HarnessError(x)
        check(s == "ok", lambda: f"the requests end with {x}")  # noqa: B023
    check(a[1] == b[1], lambda: f"the answers differ after requests on other objects: {first_difference(b[1], a[1])}")
    return a[1]


def twins_oracle(case: Any, info: Info) -> None:
    a = same(twins_work, case, {"near": [], "twice": False})[0]
    answered = [e[0] for e in a if len(e) > 1 and not isinstance(e[1], str)]
    info.label(*answered)
    info.extra += len(answered)
    info.nt(len(answered) >= 10 and bool(case["near"]))


def randomised_oracle(case: Any, info: Info) -> None:
    same(randomised_work, case, {"before": 0})
    info.label(*(c["op"] for c in case["ops"]))
    info.nt(case["before"] > 0)


@st.composite
def twins(draw: Any) -> dict[str, Any]:
    objects = draw(c38.cases())
    del objects["steps"]
    return {"objects": objects, "arg": draw(st.integers(0, 30)), "near": draw(st.lists(st.integers(0, 2**16), min_size=1, max_size=3)), "twice": draw(st.booleans()), "tables": draw(st.booleans())}


def again() -> Any:
    return st.fixed_dictionaries({"ops": st.lists(c14.strat(), min_size=1, max_size=4), "order": st.integers(0, 2**16), "before": st.integers(1, 5)})


def random_main(case: Any) -> bool:
    return bool(case["main"][0][0] == "randomised")


def oracle(case: Any, info: Info) -> None:
    here = procs.isolated(work, {**case, "before": [], "here": True})
    there = other("vh.checks.c42:work", case["hash"]).ask({**case, "here": False})
    for s, x in (here, there):
        if s == "harness":
            raise HarnessError(x)
        check(s == "ok", lambda: f"the history ends with {x}")  # noqa: B023
    a, b = here[1], there[1]
    steps = [e[0] for (kind, _), log in zip(case["main"], a) if kind == "requests" for e in log if len(e) == 4 and e[0]]
    check(a == b, lambda: f"another process (hash seed {case['hash']}, {len(case['before'])} histories before) answers otherwise, after {steps[:40]}: {first_difference(a, b)}")
    info.label(*steps, *(c["op"] for kind, c in case["main"] if kind == "randomised"), f"{len(case['before'])} histories before", *(["similar histories before"] if case["near"] and not random_main(case) else []))
    info.extra += len(steps)
    info.nt(len(steps) >= 5 or any(kind == "randomised" for kind, _ in case["main"]))


def histories(random_ops: bool, hashseed: int) -> Any:
    ops = c14.strat().map(lambda c: ["randomised", c])
    req = c38.cases().map(lambda c: ["requests", c])
    return st.fixed_dictionaries({"main": st.lists(ops, min_size=2, max_size=5) if random_ops else st.lists(req, min_size=1, max_size=1),
                                  "before": st.lists(st.one_of(ops, req), max_size=2), "noise": st.integers(0, 99), "near": st.lists(st.integers(0, 2**16), max_size=2), "hash": st.just(hashseed)})


SUBS = [
    Sub("requests 1", lambda: histories(False, 1), oracle, 130, 5000, shards=2, rule="at least five requests"),
    Sub("requests 2", lambda: histories(False, 77), oracle, 130, 5000, shards=2, rule="at least five requests"),
    Sub("requests 3", lambda: histories(False, 4242), oracle, 130, 5000, shards=2, rule="at least five requests"),
    Sub("twins", twins, twins_oracle, 240, 8000, shards=8, rule="at least ten requests answered, after those on a similar object"),
    Sub("seeds", again, randomised_oracle, 320, 8000, shards=4, rule="an operation was carried out before with another seed"),
    Sub("randomised", lambda: histories(True, 13), oracle, 200, 5000, shards=2, rule="at least one randomised operation"),
]
