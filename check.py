#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (see DESIGN.md)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "tools"), HERE]
import vlib

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    vlib.main(pid, mod.run)
