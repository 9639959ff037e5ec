"""Runner: generated-input search with Hypothesis, shrinking, replay files, evidence.

A check module (vh.checks.cXX) defines ``SUBS``: a list of :class:`Sub`.  Each sub has a
strategy producing JSON-able cases and an oracle ``oracle(case, info)`` that raises on a
violation.  A replay file holds the (shrunk) case itself, so a replay bypasses Hypothesis.
"""
from __future__ import annotations

import dataclasses
import hashlib
import json
import os
import pickle
import re
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path
from typing import Any, Callable

from vh import deps

deps.ensure()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis.internal.conjecture import engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 60
# Mutating earlier examples mostly repeats them here (many drawn bits are masked out): draw afresh instead.
_engine.ConjectureRunner.generate_mutations_from = lambda self, data: None

ROOT = Path(__file__).resolve().parent.parent
CPU_LIMIT_PER_CASE = 60.0


class Fail(AssertionError):
    """The property does not hold on the case."""


class Discard(Exception):
    """The case is outside the domain of the property (counted, never silently)."""


class BudgetStop(BaseException):
    pass


class Hang(BaseException):
    pass


class HarnessError(Exception):
    """Something is wrong with the harness itself."""


def check(cond: Any, msg: str | Callable[[], str] = "") -> None:
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


class Info:
    """Per-case classification written by the oracle."""

    def __init__(self, listed: dict[str, str] | None = None) -> None:
        self.listed = listed or {}
        self.labels: set[str] = set()
        self.nontrivial = False
        self.known: list[tuple[str, str]] = []
        self.extra = 0

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def finding(self, key: str, err: BaseException) -> None:
        """``err`` is the listed known finding ``key``; anything not in the committed file is a violation."""
        if key not in self.listed:
            raise err
        self.known.append((key, self.listed[key]))

    def nt(self, cond: bool = True) -> None:
        if cond:
            self.nontrivial = True


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    oracle: Callable[[Any, Info], None]
    quick: int
    thorough: int | None = None
    shards: int = 2
    rule: str = ""
    #: exhaustive enumeration instead of random search: callable(tier) -> iterable of cases
    enumerate: Callable[[str], Any] | None = None
    #: optional oracle for confirming known findings
    min_nontrivial: float = 0.0


def norm_case(case: Any) -> Any:
    return json.loads(json.dumps(case))


def clean(case: Any) -> Any:
    """Drop the caches (keys starting with an underscore) that oracles may leave in a case."""
    if isinstance(case, dict):
        return {k: clean(v) for k, v in case.items() if not k.startswith("_")}
    if isinstance(case, list):
        return [clean(x) for x in case]
    return case


def digest(sub: str, case: Any) -> bytes:
    return hashlib.blake2b((sub + json.dumps(case, sort_keys=True)).encode(), digest_size=8).digest()


def load_known() -> list[dict[str, Any]]:
    path = ROOT / "known_findings.txt"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


KNOWN: dict[str, str] = {}


def _arm() -> None:
    def handler(signum, frame):  # noqa: ANN001, ARG001
        raise Hang

    signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)


def _disarm() -> None:
    signal.setitimer(signal.ITIMER_PROF, 0)


@dataclasses.dataclass
class Result:
    sub: str
    evaluations: int = 0
    discarded: int = 0
    nontrivial: set[bytes] = dataclasses.field(default_factory=set)
    distinct: set[bytes] = dataclasses.field(default_factory=set)
    labels: Counter = dataclasses.field(default_factory=Counter)
    samples: list[Any] = dataclasses.field(default_factory=list)
    violation: dict[str, Any] | None = None
    harness_error: str | None = None
    known: dict[str, str] = dataclasses.field(default_factory=dict)
    budget_stopped: bool = False
    extra: int = 0
    wall: float = 0.0


def format_error(e: BaseException) -> str:
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    text = "".join(tb)
    return text[-6000:]


def run_oracle(sub: Sub, case: Any) -> Info:
    info = Info(KNOWN)
    _arm()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.oracle(case, info)
    finally:
        _disarm()
    return info


class Runner:
    def __init__(self, sub: Sub, deadline: float) -> None:
        self.sub = sub
        self.deadline = deadline
        self.res = Result(sub.name)
        self.last_fail: tuple[Any, BaseException] | None = None
        self.first_fail_time: float | None = None

    def one(self, case: Any, counting: bool = True) -> None:
        now = time.monotonic()
        if now > self.deadline and self.last_fail is None:
            self.res.budget_stopped = True
            raise BudgetStop
        if self.first_fail_time is not None and now > self.first_fail_time + 120:
            raise BudgetStop
        case = norm_case(case)
        res = self.res
        try:
            info = run_oracle(self.sub, case)
        except Discard:
            res.discarded += 1
            hypothesis.reject() if counting else None
            return
        except HarnessError:
            raise
        except Hang as e:
            self.last_fail = (case, Fail(f"no answer within {CPU_LIMIT_PER_CASE} s of CPU time"))
            raise
        except Exception as e:
            self.last_fail = (case, e)
            if self.first_fail_time is None:
                self.first_fail_time = time.monotonic()
            raise
        if self.last_fail is not None:
            return  # shrinking: do not count
        res.evaluations += 1
        res.extra += info.extra
        case = clean(case)
        d = digest(self.sub.name, case)
        res.distinct.add(d)
        for l in info.labels:
            res.labels[l] += 1
        for k, what in info.known:
            res.known.setdefault(k, what)
        if info.nontrivial and d not in res.nontrivial:
            res.nontrivial.add(d)
            n = len(res.nontrivial)
            if n in (1, 7, 40):
                res.samples.append(case)

    def run(self, seed: int, n: int) -> Result:
        t0 = time.monotonic()
        try:
            @hypothesis.seed(seed)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                print_blob=False,
                report_multiple_bugs=False,
                verbosity=hypothesis.Verbosity.quiet,
            )
            @given(self.sub.strategy())
            def test(case):  # noqa: ANN001
                self.one(case)

            test()
        except BudgetStop:
            pass
        except Hang:
            pass
        except HarnessError as e:
            self.res.harness_error = format_error(e)
        except hypothesis.errors.Unsatisfiable as e:
            self.res.harness_error = format_error(e)
        except BaseException as e:  # noqa: BLE001
            if self.last_fail is None:
                self.res.harness_error = format_error(e)
        self._finish(t0)
        return self.res

    def run_list(self, cases: Any) -> Result:
        t0 = time.monotonic()
        try:
            for case in cases:
                self.one(case, counting=False)
        except (BudgetStop, Hang):
            pass
        except HarnessError as e:
            self.res.harness_error = format_error(e)
        except BaseException as e:  # noqa: BLE001
            if self.last_fail is None:
                self.res.harness_error = format_error(e)
        self._finish(t0)
        return self.res

    def _finish(self, t0: float) -> None:
        if self.last_fail is not None:
            case, e = self.last_fail
            case = clean(case)
            if isinstance(e, (MemoryError,)):
                self.res.harness_error = format_error(e)
            else:
                self.res.violation = {"sub": self.sub.name, "case": case, "error": f"{type(e).__name__}: {e}", "traceback": format_error(e)}
        self.res.wall = time.monotonic() - t0


def derive_seed(seed: int, sub: str, shard: int) -> int:
    return int.from_bytes(hashlib.blake2b(f"{seed}/{sub}/{shard}".encode(), digest_size=6).digest(), "big")


def _fork_task(fn: Callable[[], Result], out: str) -> int:
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        r = fn()
        with open(out + ".tmp", "wb") as f:
            pickle.dump(r, f)
        os.rename(out + ".tmp", out)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 9
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def run_check(prop: str, subs: list[Sub], *, tier: str, seed: int, only: str | None = None, scale: float = 1.0,
              level: str = "exploration", workers: int | None = None, assumptions: list[str] | None = None) -> int:
    t0 = time.monotonic()
    KNOWN.update({d["id"]: d["what"] for d in load_known() if d["property"] == prop})
    soft = float(os.environ.get("VERIF_SOFT", 240 if tier == "quick" else 660))
    hard = soft + 200
    deadline = t0 + soft
    if only:
        subs = [s for s in subs if re.fullmatch(only, s.name)]
    tasks: list[tuple[str, Callable[[], Result]]] = []
    regress = ROOT / "regress" / f"{prop}.json"
    byname = {s.name: s for s in subs}
    if regress.exists():
        groups: dict[str, list[Any]] = {}
        for item in json.loads(regress.read_text()):
            if item["sub"] in byname:
                groups.setdefault(item["sub"], []).append(item["case"])
        for name, cases in groups.items():
            tasks.append((name, lambda name=name, cases=cases: Runner(byname[name], deadline).run_list(cases)))
    for s in subs:
        if s.enumerate is not None:
            for k in range(s.shards):
                def fn(s=s, k=k):
                    cases = (c for i, c in enumerate(s.enumerate(tier)) if i % s.shards == k)
                    return Runner(s, deadline).run_list(cases)
                tasks.append((s.name, fn))
            continue
        n = s.quick if tier == "quick" else (s.thorough if s.thorough is not None else s.quick * 20)
        n = max(1, int(n * scale))
        shards = s.shards if tier == "quick" else max(8, s.shards)
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                tasks.append((s.name, lambda s=s, k=k, m=m: Runner(s, deadline).run(derive_seed(seed, s.name, k), m)))
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    results: list[Result] = []
    violation = None
    harness: list[str] = []
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        running: dict[int, int] = {}
        nxt = 0
        while nxt < len(tasks) or running:
            while nxt < len(tasks) and len(running) < workers and violation is None:
                pid = _fork_task(tasks[nxt][1], f"{tmp}/{nxt}")
                running[pid] = nxt
                nxt += 1
            if not running:
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() - t0 > hard:
                    for p in running:
                        os.kill(p, signal.SIGKILL)
                    names = sorted({tasks[i][0] for i in running.values()})
                    harness.append(f"no answer from {names} within {hard} s")
                    break
                time.sleep(0.02)
                continue
            if pid not in running:
                continue
            i = running.pop(pid)
            path = f"{tmp}/{i}"
            if not os.path.exists(path):
                harness.append(f"worker for {tasks[i][0]} ended with status {status}")
                continue
            with open(path, "rb") as f:
                r: Result = pickle.load(f)
            results.append(r)
            if r.harness_error:
                harness.append(r.harness_error)
            if r.violation is not None and violation is None:
                violation = r.violation
                for p in list(running):
                    os.kill(p, signal.SIGKILL)
                for p in list(running):
                    os.waitpid(p, 0)
                running.clear()
                break
    # merge
    merged: dict[str, Result] = {}
    for r in results:
        m = merged.setdefault(r.sub, Result(r.sub))
        m.evaluations += r.evaluations
        m.discarded += r.discarded
        m.nontrivial |= r.nontrivial
        m.distinct |= r.distinct
        m.labels += r.labels
        m.samples += r.samples
        m.known.update(r.known)
        m.budget_stopped |= r.budget_stopped
        m.extra += r.extra
        m.wall += r.wall
    known: dict[str, str] = {}
    for m in merged.values():
        known.update(m.known)
    by_sub = {}
    for s in subs:
        m = merged.get(s.name)
        if m is None:
            continue
        by_sub[s.name] = {
            "evaluations": m.evaluations, "distinct": len(m.distinct), "distinct_nontrivial": len(m.nontrivial),
            "discarded": m.discarded, "labels": dict(sorted(m.labels.items())), "rule": s.rule,
            "cpu_s": round(m.wall, 2), **({"stopped_by_time_budget": True} if m.budget_stopped else {}),
            **({"inner_comparisons": m.extra} if m.extra else {}),
            **({"enumerated": True} if s.enumerate is not None else {}),
        }
    samples = []
    for m in merged.values():
        for c in m.samples[:2]:
            text = json.dumps(c)
            samples.append({"sub": m.sub, "case": c if len(text) < 1500 else text[:1500] + "..."})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": sum(m.evaluations for m in merged.values()),
            "distinct_nontrivial": sum(len(m.nontrivial) for m in merged.values()),
            "rule": "cases are generated by Hypothesis from the structured generators named under by_sub (or enumerated where said); " + " | ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": samples,
            "by_sub": by_sub,
        },
        "assumptions": assumptions or [],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    ev = ROOT / "evidence"
    ev.mkdir(exist_ok=True)
    if not os.environ.get("VERIF_NO_EVIDENCE"):
        (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for k, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {what}")
    for name, d in by_sub.items():
        print(f"  {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, {d['discarded']} discarded, {d['cpu_s']} s" + (" (time budget)" if d.get("stopped_by_time_budget") else ""))
    if violation is not None:
        rep = ev / "replays"
        if os.environ.get("VERIF_NO_EVIDENCE"):
            rep = Path(tempfile.gettempdir()) / "vh-replays"
        rep.mkdir(exist_ok=True, parents=True)
        h = digest(violation["sub"], violation["case"]).hex()
        path = rep / f"{prop}-{violation['sub']}-{h}.json"
        path.write_text(json.dumps({"property": prop, **violation, "seed": seed, "tier": tier}, indent=1))
        print(violation["traceback"])
        print(f"case: {json.dumps(violation['case'])[:3000]}")
        print(f"{violation['sub']}: {violation['error'][:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if harness:
        for h in harness:
            print("HARNESS ERROR:", h, file=sys.stderr)
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={evidence['coverage']['evaluations']} nontrivial={evidence['coverage']['distinct_nontrivial']} wall={evidence['wall_s']}s")
    return 0


def run_replay(prop: str, subs: list[Sub], path: str) -> int:
    data = json.loads(Path(path).read_text())
    items = data if isinstance(data, list) else [data]
    KNOWN.update({d["id"]: d["what"] for d in load_known() if d["property"] == prop})
    for item in items:
        sub = next(s for s in subs if s.name == item["sub"])
        try:
            info = run_oracle(sub, item["case"])
            print("held:", sorted(info.labels))
        except Discard:
            print("discarded")
        except Exception:  # noqa: BLE001
            traceback.print_exc()
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    return 0
