#!/usr/bin/env python3
"""Checks that the toolchains the checks use are there. The checks build everything themselves."""
import subprocess, sys
for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(" ".join(cmd), "->", r.stdout.strip() or r.stderr.strip())
    if r.returncode:
        sys.exit(1)
