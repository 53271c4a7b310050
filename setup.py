#!/usr/bin/env python3
"""Nothing to build ahead: every check builds the tree under test itself.  Checks that the tools are there."""
import os, shutil, subprocess, sys
for t in ("java", "gcc", "make", "python3"):
    if not shutil.which(t):
        print("missing tool: " + t)
        sys.exit(1)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import common
for j in common.TLAJAR.split(":"):
    if not os.path.exists(j):
        print("missing " + j)
        sys.exit(1)
print("setup ok")
