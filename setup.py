#!/usr/bin/env python3
"""setup_cmd: makes sure that the toolchains are there and that the main engine builds offline."""
import subprocess, sys
from check import build
for c in (["cargo", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    if subprocess.run(c).returncode:
        sys.exit(1)
es = build(["seq"])
sys.exit(0 if all(e.ok for e in es.values()) else 1)
