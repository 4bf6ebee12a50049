#!/usr/bin/env python3
"""Nothing to prebuild: every check compiles its own harness against /repo. Verifies the tools are here."""
import os, shutil, sys
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"), exist_ok=True)
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
print("ok")
