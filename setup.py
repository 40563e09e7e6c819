#!/usr/bin/env python3
"""Builds the extraction tool and the witness search."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(V, "work"), exist_ok=True)
for d in ("vx", "witness"):
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, d),
                       env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, "target"), RUSTFLAGS="-Awarnings"))
    if r.returncode:
        sys.exit(r.returncode)
