#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOTES  # noqa: E402
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="cfg(trees_loom)", enable="RUSTFLAGS='--cfg trees_loom' with a generated package whose [lib] path is /repo/src/lib.rs and which depends on loom (C22 only; every other check builds /repo without hooks)", source_commits=hook),
    checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
                 evidence_file=f"evidence/{p}.json", technique=CHECKS[p]["technique"], level=CHECKS[p]["level"], level_note=CHECKS[p]["note"])
            for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason="not built yet") for p in props if p not in CHECKS],
    notes=NOTES)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
