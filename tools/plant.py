"""Try planted bugs in scratch copies of /repo (development aid; no check uses it).

usage: plant.py [--notests] [--nocheck] ID...
For each seeded/<ID>: the patch applies to /repo's HEAD, demo.sh passes on a clean copy and fails on the patched
one, the stable tests pass on the patched copy, and the property's quick check (run against the copy through
VERIF_REPO) reports it or not.  Prints one line per bug.
"""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

VERIF = pathlib.Path(__file__).resolve().parent.parent
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, **env):
    e = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mplconfig", "OMP_NUM_THREADS": "1",
         "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "2", "PYTHONHASHSEED": "0", "PATH": "/opt/venv/bin:" + os.environ["PATH"], **env}
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests(d, w):
    sh(f"python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --doctest-modules --mpl --continue-on-collection-errors --basetemp={w}/tmp --benchmark-storage={w}/bench -o junit_family=xunit2 --junitxml={w}/junit.xml", d, PYTHONPATH=str(d))
    sh(f"/usr/bin/python3 /opt/vp/results.py {w}/out.json junit:{w}/junit.xml", d)
    got = json.load(open(f"{w}/out.json"))
    return sorted(BASE - set(got["passed"]))


def main():
    args = sys.argv[1:]
    notests, nocheck = "--notests" in args, "--nocheck" in args
    ids = [a for a in args if not a.startswith("--")]
    for i in ids:
        s = pathlib.Path(os.environ.get("PLANT_DIR", VERIF / "seeded")) / i
        prop = json.load(open(s / "meta.json"))["property"]
        w = pathlib.Path(tempfile.mkdtemp(prefix="plant", dir="/tmp/w"))
        try:
            d = w / "repo"
            shutil.copytree("/repo", d, symlinks=True)
            dd = w / "demo"
            shutil.copytree(s, dd)
            res = []
            c, o = sh(f"bash {dd}/demo.sh", d, 300, PYTHONPATH=str(d))
            if c:
                print(i, prop, "DEMO FAILS ON CLEAN TREE", o[-600:], flush=True)
                continue
            c, o = sh(f"git apply {s}/patch.diff", d)
            if c:
                print(i, prop, "DOES NOT APPLY", o, flush=True)
                continue
            c, o = sh(f"bash {dd}/demo.sh", d, 300, PYTHONPATH=str(d))
            res.append("demo ok" if c else "DEMO PASSES ON PATCHED TREE")
            last = o.strip().splitlines()[-1:] if c else []
            if not notests:
                bad = tests(d, w)
                res.append("tests ok" if not bad else f"TESTS FAIL {len(bad)} {bad[:3]}")
            if not nocheck:
                c, o = sh(f"bash {VERIF}/check.sh {prop} --tier quick --seed 1", VERIF, 900, VERIF_REPO=str(d))
                m = re.search(r"^VIOLATION.*", o, re.M)
                t = re.search(r"wall=([\d.]+)", o)
                res.append(f"CAUGHT {m.group(0)[-60:]}" if c == 1 and m else f"MISSED exit {c} {t and t.group(0)}")
            print(i, prop, *res, *[x[:160] for x in last], sep=" | ", flush=True)
        finally:
            shutil.rmtree(w)


main()
