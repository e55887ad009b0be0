#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, props
NA = [
]
TECH = "symbolic execution of rustc's LLVM IR of the real crate, SMT solver (z3) decides branches and assertions"
doc = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "cfg(gecs_verif), cfg(gecs_verif_small)",
        "enable": "RUSTFLAGS='--cfg gecs_verif [--cfg gecs_verif_small]' while building the harness crates (vlib.py, props.py); most checks build with the hooks off",
        "source_commits": ["ad7e505"],
    },
    "checks": [
        {"property": p, "quick_cmd": "python3 run.py check %s quick" % p, "thorough_cmd": "python3 run.py check %s thorough" % p,
         "technique": props.PROPS[p].get("technique", TECH), "level": props.PROPS[p]["level"],
         "level_note": props.PROPS[p].get("note", "bounded: exhaustive within the bounds that the evidence file lists per run; " + props.PROPS[p]["explain"][-0:][:0])}
        for p in sorted(props.PROPS)
    ],
    "not_applicable": NA + [{"property": p, "reason": "check under construction"} for p in () if p not in props.PROPS],
}
for c in doc["checks"]:
    c["level_note"] = c["level_note"].rstrip("; ")
json.dump(doc, open("MANIFEST.json", "w"), indent=1)
