"""Running a function of a case in a fresh fork of this process, and in forks of another interpreter with another hash seed."""
from __future__ import annotations

import importlib
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import tempfile
import traceback
import warnings
from typing import Any, Callable

from vh.core import Discard, HarnessError

LIMIT = 55  # seconds of CPU for one request


def isolated(fn: Callable[[Any], Any], case: Any) -> tuple[str, Any]:
    """("ok", result), ("discard", ""), ("harness", text) or ("error", text) of fn(case) in a fork."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (LIMIT, LIMIT + 5))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    ans = ("ok", fn(case))
                except Discard:
                    ans = ("discard", "")
                except HarnessError:
                    ans = ("harness", traceback.format_exc()[-4000:])
                except BaseException:  # noqa: BLE001
                    ans = ("error", traceback.format_exc()[-4000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(ans, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("error", f"the process ended with status {status}")
    return pickle.loads(data)


class Other:
    """Another interpreter, with another hash seed, working directory and locale, which forks for every request."""

    def __init__(self, function: str, hashseed: int) -> None:
        self.dir = tempfile.TemporaryDirectory()
        self.err = tempfile.TemporaryFile()
        env = {**os.environ, "PYTHONHASHSEED": str(hashseed), "LC_ALL": "C", "LANG": "C", "COLUMNS": "37", "TZ": "Asia/Tokyo", "PYTHONIOENCODING": "utf-8", "HOME": self.dir.name}
        self.p = subprocess.Popen([sys.executable, "-P", "-m", "vh.procs", function], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.dir.name)

    def ask(self, case: Any) -> tuple[str, Any]:
        assert self.p.stdin is not None and self.p.stdout is not None
        try:
            self.p.stdin.write(json.dumps(case).encode() + b"\n")
            self.p.stdin.flush()
            n = int(self.p.stdout.readline() or b"-1")
        except (BrokenPipeError, ValueError):
            n = -1
        if n < 0:
            self.err.seek(0)
            raise HarnessError(f"the other interpreter ended: {self.err.read()[-2000:]!r}")
        return pickle.loads(self.p.stdout.read(n))


def serve(function: str) -> None:
    module, name = function.split(":")
    fn = getattr(importlib.import_module(module), name)
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # nothing else may write to the pipe
    for line in sys.stdin.buffer:
        data = pickle.dumps(isolated(fn, json.loads(line)))
        out.write(str(len(data)).encode() + b"\n" + data)
        out.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
