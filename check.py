#!/usr/bin/env python3
"""python3 check.py C01 : runs the check of one property (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import check
pid = sys.argv[1]
mod = importlib.import_module("checks." + pid.lower())
check.main(pid, mod.body, getattr(mod, "LEVEL", "model_checking"))
