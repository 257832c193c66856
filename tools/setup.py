"""Builds the harness against the current tree (the checks would do so as well)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
r = lib.build_all(["A", "C", "E"])
print({k: bool(v) for k, v in r.items()})
sys.exit(0 if any(r.values()) else 1)
