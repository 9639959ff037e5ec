"""Make hypothesis importable, offline, without installing anything outside /verif."""
from __future__ import annotations

import importlib.util
import os
import sys
import tempfile
import zipfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
WHEELS = Path("/opt/veriftools/wheels")


def ensure() -> None:
    if importlib.util.find_spec("hypothesis") is not None:
        return
    deps = ROOT / ".deps"
    if not (deps / ".complete").exists():
        try:
            deps.mkdir(exist_ok=True)
            base = deps
        except OSError:
            base = Path(tempfile.mkdtemp(prefix="vh-deps-"))
        tag = f"cp3{sys.version_info.minor}"
        wheels = sorted(WHEELS.glob(f"hypothesis-*-{tag}-*.whl")) or sorted(WHEELS.glob("hypothesis-*-py3-none-any.whl"))
        wheels += sorted(WHEELS.glob("sortedcontainers-*.whl"))
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(base)
        (base / ".complete").write_text("ok")
        deps = base
    sys.path.insert(0, str(deps))
    os.environ["PYTHONPATH"] = os.environ.get("PYTHONPATH", "") + os.pathsep + str(deps)
    importlib.invalidate_caches()
    if importlib.util.find_spec("hypothesis") is None:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
