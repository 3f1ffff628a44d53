#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from bin/suites.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from suites import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i}",
            "thorough_cmd": f"bin/check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "TLA+ specification explored by TLC; traces of the real code validated against it",
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {"guard": "bugi_verif", "enable": "RUSTFLAGS='--cfg bugi_verif' (bin/vlib.py, cargo_env)",
              "source_commits": ["3533c67"]},
    "checks": checks,
    "not_applicable": na,
    "notes": "bin/check builds a verbatim mirror of /repo (build/bugi) next to a stand-in for the missing crate spacemath, and the drivers in harness/ against it. The oracle is always a TLA+ specification in specs/.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
