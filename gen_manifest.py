#!/usr/bin/env python3
"""MANIFEST.json from props.json (what each check decides and how)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(f"{H}/props.json"))
checks = []
for p in sorted(cfg):
    c = cfg[p]
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick ./check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "contract-based deductive verification of the extracted code (Verus), every obligation discharged on every run",
        "level": "proof",
        "level_note": "proved for " + c["claim"] + ". Units: " + ", ".join(c["units"]) + "; a caller is checked against its callees' contracts, which their own units discharge. Trusted: the mechanical extraction (vx), the contracts of the standard library and of external crates in specs/, Verus and Z3. A bounded run of the real crate (" + c["bound"] + ") comes with it: it supplies failing inputs, stands in for a function the extraction cannot bring to the verifier, and is never counted as proved.",
        **({"theorems": c["theorems"]} if c["theorems"] else {}),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [
        {"property": "C26", "reason": "Residual memory contents are not a postcondition over program values: contracts speak about the values a function returns, not about copies the compiler, the allocator or moves leave behind, and the drop glue generated by the derive macros is not source the verifier sees. No contract within reach of a deductive verifier for Rust expresses it."},
    ],
}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
open(f"{H}/MANIFEST.json", "a").write("\n")
