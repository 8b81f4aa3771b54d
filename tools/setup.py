#!/usr/bin/env python3
"""Builds every harness once (each check rebuilds what a change touched)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
import build
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    C = importlib.import_module(c["property"]).Check
    try:
        C("quick", 1).build_harness()
        print("built", c["property"])
    except Exception as e:
        print("not built", c["property"], e)
