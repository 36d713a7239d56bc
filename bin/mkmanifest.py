#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
sys.modules["check"] = check
from props import CHECKS

V = check.VERIF
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "cfg verif", "enable": "RUSTFLAGS from harness/.cargo/config.toml: --cfg verif",
              "source_commits": []},
    "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s" % p,
                "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % p,
                "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]}
               for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": "its specification and conformance check are not built yet"} for p in props if p not in CHECKS],
    "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md.",
}
import subprocess
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif"], capture_output=True, text=True).stdout.split()
m["hooks"]["source_commits"] = h
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
