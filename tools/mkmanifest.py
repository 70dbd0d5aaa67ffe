#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "108f570"
import subprocess
HOOKS = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", h], text=True).strip() for h in open(os.path.join(here, "tools/hook_commits")).read().split()]
T = json.load(open(os.path.join(here, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in T:
        na.append({"property": i, "reason": "check still being built"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": T[i]["technique"],
        "level": T[i].get("level", "exploration"),
        "level_note": T[i]["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./check --build-only",
    "hooks": {
        "guard": "md_recover_verif",
        "enable": "harness/build.rs emits --cfg md_recover_verif and compiles /repo/src by path into the harness (#[path] modules); /repo's own build never sets it",
        "source_commits": HOOKS,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is generated-input search over one Rust harness (harness/), built from /repo/src by path. ./check ID --replay FILE re-runs a recorded case.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
