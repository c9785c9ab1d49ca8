#!/usr/bin/env python3
"""setup: warm the object cache for the unchanged tree (every check rebuilds what changed)."""
import subprocess, sys, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
ids = sorted(CHECKS)
for i in ids:
    subprocess.run([sys.executable, "check.py", i, "--build-only", "1"])
