"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from irsym import checks

ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
out = {
    "version": 1,
    "setup_cmd": "python3-vt check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds the harness crate (path dependency on /repo) from the current tree, executes the optimised LLVM IR of the crate symbolically and lets z3 decide. No hooks in /repo are needed. Replays: python3-vt check.py --replay FILE.",
}
for i in ids:
    c = checks.REGISTRY.get(i)
    if c is None:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    out["checks"].append(
        {
            "property": i,
            "quick_cmd": f"python3-vt check.py {i} --tier quick",
            "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(c, "technique", "symbolic execution of the crate's LLVM IR, assertions decided by z3 (SMT)"),
            "level": "model_checking",
            "level_note": f"Bounded: {c.bounds}. Decides: {c.what}. Trusts the LLVM IR rustc emits, the executor's instruction and intrinsic semantics (compared with native runs on every check run) and z3; counterexamples are replayed natively before they are reported." + (" Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else ""),
        }
    )
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
