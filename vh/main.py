from __future__ import annotations

import argparse
import importlib
import os
import sys


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from vh import core

    try:
        import graphix

        expected = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
        if not os.path.realpath(graphix.__file__).startswith(expected + os.sep):
            print(f"HARNESS ERROR: graphix imported from {graphix.__file__}", file=sys.stderr)
            return 2
        mod = importlib.import_module(f"vh.checks.{a.property.lower()}")
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        return 2
    if a.replay:
        return core.run_replay(a.property, mod.SUBS, a.replay)
    return core.run_check(a.property, mod.SUBS, tier=tier, seed=seed, only=a.only, scale=a.scale,
                          assumptions=getattr(mod, "ASSUMPTIONS", None))


if __name__ == "__main__":
    sys.exit(main())
