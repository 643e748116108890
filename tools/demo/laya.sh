#!/bin/bash
# Runs demo.py (beside this file) against the server built in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
timeout 250 python3 "$here/demo.py" "$PWD/target/debug/laya-server" "$t"
