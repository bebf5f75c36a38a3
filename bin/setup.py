#!/usr/bin/env python3
"""Builds every driver once; the checks rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from registry import TARGETS
bad = 0
for t, s in TARGETS.items():
    try:
        vlib.build(t, s)
    except vlib.CheckError as e:
        print("setup:", e)
        bad = 1
for tool in ("java", "ninja", "g++", "protoc"):
    if os.system("command -v %s >/dev/null" % tool):
        print("missing", tool); bad = 1
sys.exit(bad)
