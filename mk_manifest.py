#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl (run by hand, result committed)."""
import json, specs
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": s.get("technique", "bounded symbolic execution of the compiled code's LLVM IR, assertions decided by SMT (Z3, bit-vectors)"),
            "level": "other",
            "level_note": "Holds for every input within the stated bounds (solver verdict, no sampling); nothing is claimed outside them: " + s.get("outside", "") +
                ". Trusts clang's IR, the engine's IR semantics and Z3; counterexamples are replayed natively before they are reported.",
        })
    else:
        na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "make -C engine", "checks": checks, "not_applicable": na,
     "notes": "Checks run python3 check.py <id> <tier>; see DESIGN.md. No hooks are added to /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
