#!/usr/bin/env python3
"""Builds the programs of a check and leaves them in a directory: keep_build.py ID DIR [KIND...] (for experiments)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run
b = run.Builder().build(sys.argv[1], sys.argv[3:] or ["fast", "san"], sys.argv[2])
print(b)
