"""writes MANIFEST.json from the check modules present; run after adding a check"""
import ast
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
TECH = {}
checks, na = [], []
for p in props:
    f = root / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    tree = ast.parse(f.read_text())
    doc = ast.get_docstring(tree)
    consts = {
        t.id: ast.literal_eval(n.value)
        for n in tree.body if isinstance(n, ast.Assign) for t in n.targets
        if isinstance(t, ast.Name) and t.id in ("LEVEL", "TECHNIQUE", "ASSUMPTIONS")
    }
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"./run {p['id']} quick",
        thorough_cmd=f"./run {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=consts.get(
            "TECHNIQUE", "bounded-exhaustive explicit enumeration of inputs/configurations on the real code against a reference model"),
        level=consts.get("LEVEL", "model_checking"),
        level_note=" ".join(doc.split()) + " Holds for every case inside the stated bounds; trusts: "
        + "; ".join(consts.get("ASSUMPTIONS", ["CPython, numpy, pandas"])),
    ))
m = dict(
    version=1,
    setup_cmd="./run --selftest",
    checks=checks,
    not_applicable=na,
    notes="No hooks in /repo: every check drives pdr's public API, imported from /repo's working tree. "
    "./run ID --replay FILE re-executes one reported case.",
)
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
