#!/usr/bin/env python3
"""setup_cmd: build the explorers once (every check builds again what it needs)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from checks import CHECKS
done = set()
for p, c in CHECKS.items():
    for part in c["parts"]:
        if isinstance(part, dict):
            k = (part["bin"], part.get("flavor", "std"))
            if k not in done:
                done.add(k)
                check.build(*k)
print("built", len(done), "explorers")
