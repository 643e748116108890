"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import registry
from manifest_notes import LEVEL, NOTE, NA, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
reg = registry()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                       "technique": TECH.get(i, TECH["*"]), "level": LEVEL.get(i, "model_checking"), "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "--cfg laya_verif", "enable": "RUSTFLAGS='--cfg laya_verif' cargo build (done by tools/vlib.py cargo_build for the crates in /verif/harness)",
               "source_commits": [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked and used as judges by TLC; harness crates in harness/; driver in tools/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
