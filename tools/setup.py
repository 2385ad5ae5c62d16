#!/usr/bin/env python3
"""Sanity check of the toolchain and a first build of the framework."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import run
w = run.workdir()
try:
    run.build(w, ["checked"], "c01")
except run.Broken as e:
    print(e)
    sys.exit(1)
print("setup ok")
