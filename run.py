#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from vlib import engine


def load(prop):
    for f in sorted(os.listdir(os.path.join(here, "checks"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("checks." + f[:-3])
    sys.exit("no check for " + prop)


if __name__ == "__main__":
    sys.exit(engine.main(load(sys.argv[1]), sys.argv[2:]))
