#!/usr/bin/env python3
"""plant.py ID PROPERTY NEEDS BREAKS DEMOFILE: keep the uncommitted change in /tmp/plant as seeded bug ID."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, needs, breaks, demo = sys.argv[1:6]
d = os.path.join(V, "seeded", i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/plant", "diff"], capture_output=True, text=True).stdout
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
S = os.path.join(V, "tools", "demo")
if demo.endswith(".rs"):
    shutil.copy(demo, d + "/main.rs"); shutil.copy(S + "/jp2.rs", d); shutil.copy(S + "/jp2.sh", d + "/demo.sh")
else:
    shutil.copy(demo, d + "/demo.py"); shutil.copy(S + "/layasrv.py", d); shutil.copy(S + "/laya.sh", d + "/demo.sh")
subprocess.run(["git", "-C", "/tmp/plant", "checkout", "--", "."], check=True)
