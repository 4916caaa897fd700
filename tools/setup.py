#!/usr/bin/env python3
"""Checks that the toolchain the checks need is present and warms the build cache."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import build as B
subprocess.run([B.CXX, "--version"], check=True, stdout=subprocess.DEVNULL)
B._compile_all(B.runtime())
print("ok")
