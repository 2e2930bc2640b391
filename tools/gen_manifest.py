#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
fns = {}
for p in sorted((root / "sa" / "checks").glob("*.py")):
    if p.stem.startswith("_"):
        continue
    m = importlib.import_module(f"sa.checks.{p.stem}")
    for n in dir(m):
        if len(n) == 3 and n[0] == "c" and n[1:].isdigit():
            fns[n.upper()] = getattr(m, n)
NA = json.loads((root / "tools" / "not_applicable.json").read_text())
checks, na = [], []
for line in (root / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    if pid in fns:
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --thorough",
            "technique": "static analysis: path-sensitive dataflow/typestate over the syntax tree (value numbering, callees inlined); nothing is executed",
            "level": "other",
            "level_note": (fns[pid].__doc__ or "").split("\n\n")[0].strip() + " Every path class of the entry points is enumerated and each rule is applied on every path; loops are analysed for an arbitrary iteration. See DESIGN.md.",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not built yet")})
doc = {"version": 1, "setup_cmd": "python3 -c pass", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
