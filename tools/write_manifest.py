"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    f = root / "vh" / "checks" / f"{i.lower()}.py"
    if not f.exists():
        na.append({"property": i, "reason": "check not built yet (property-based testing applies; work in progress)"})
        continue
    doc = ast.get_docstring(ast.parse(f.read_text())) or ""
    note = " ".join(doc.split())
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} --tier quick",
        "thorough_cmd": f"bash check.sh {i} --tier thorough",
        "technique": "property-based testing: Hypothesis structured generation with shrinking against an independent numpy/brute-force oracle",
        "level": "exploration",
        "level_note": note[:900] or p["title"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
