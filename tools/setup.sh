#!/bin/bash
# Build every harness crate against /repo (checks rebuild incrementally from the working tree).
set -e
cd "$(dirname "$0")"
python3 -c '
import os, vlib
for c in sorted(os.listdir(os.path.join(vlib.VERIF, "harness"))):
    vlib.cargo_build(c)
'
