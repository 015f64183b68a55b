#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root/"properties.jsonl").read_text().splitlines() if l.strip()]
impl = set(re.findall(r'\("(C\d\d)",', (root/"mc/src/props/mod.rs").read_text()))
NOTE = ("Exhaustive within the stated bounds (operations, users, amounts, depth; see DESIGN.md and the evidence file), on the real "
        "contract code. Trusted: the harness chain's wasmd semantics, cw20-base/cw721-base, the oracle. Not covered: gas, wasm-level failures, larger bounds.")
m = {"version": 1,
     "setup_cmd": "bash check.sh build",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: the contracts' public entry points are driven directly. fix: commits in /repo are listed in known_findings.txt."}
for p in props:
    i = p["id"]
    if i in impl:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": "explicit-state model checking of the real contracts (exhaustive bounded operation sequences / input grids)",
            "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
(root/"MANIFEST.json").write_text(json.dumps(m, indent=1)+"\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
