#!/usr/bin/env python3
"""Builds the MIR dumper and /repo's dependencies (offline)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.ensure_driver()
p = os.path.join(build.BUILD, "setup.json")
build.dump(build.all_features(), p)
os.remove(p)
print("ready")
