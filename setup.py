#!/usr/bin/env python3
"""Builds every harness from /repo's current tree (objects are cached in /verif/build)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
from vlib.harnesses import H
for name, kw in H.items():
    try:
        print(B.build(name, **kw), flush=True)
    except B.BuildError as e:      # the check concerned reports it
        print("cannot build %s: %s" % (name, e), flush=True)
