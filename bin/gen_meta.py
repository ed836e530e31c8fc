#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/*.json (one file per property)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props, checks, na = [], [], []
for f in sorted((V / "meta").glob("*.json")):
    m = json.loads(f.read_text())
    c = m.pop("check", None)
    n = m.pop("not_applicable", None)
    props.append(m)
    if c is not None:
        checks.append({"property": m["id"], "quick_cmd": "python3 bin/check.py " + m["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + m["id"],
                       "technique": c.get("technique", "symbolic execution of the compiled LLVM IR + SMT (z3/cvc5), counterexamples replayed natively"),
                       "level": "model_checking",
                       "level_note": c["note"]})
    else:
        na.append({"property": m["id"], "reason": n})
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
man = {"version": 1, "setup_cmd": "bash bin/setup.sh",
       "hooks": {"guard": "--cfg mango_verif", "enable": "RUSTFLAGS contains '--cfg mango_verif' and MANGO_VERIF_HARNESS names the generated harness file (bin/check.py)",
                 "source_commits": (V / "meta/hook_commits").read_text().split()},
       "checks": checks, "not_applicable": na,
       "notes": "Every check compiles /repo's current sources to LLVM IR, executes it symbolically (engine/) and decides each assertion with z3/cvc5; see DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
ids = [p["id"] for p in props]
assert len(ids) == len(set(ids))
for p in props:
    assert len(p["title"]) <= 80, p["id"]
print(len(props), "properties,", len(checks), "checks")
