"""Builds what the checks need from /repo's current tree (they would build it themselves, too)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
for v, p in (("small", "builtin"), ("smallkb", "builtin"), ("plain", "builtin"), ("plain", "bison"), ("asan", "builtin"), ("smallasan", "builtin")):
    print(build.build(v, p))
