#!/usr/bin/env python3
"""Builds the workers once, offline, to show that they build (every check builds what it needs again)."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for name, args in (("dev", []), ("release", ["--release"])):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(H, "target", name), CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=os.path.join(H, "harness"), env=env)
    if r.returncode:
        sys.exit(r.returncode)
