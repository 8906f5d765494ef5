#!/usr/bin/env python3
"""Warm the object cache (every check also builds what it needs itself)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
units = sorted(os.path.basename(f)[:-4] for f in glob.glob(core.DRV + "/*.cpp") if not f.endswith("main.cpp"))
core.build(units)
core.build_spiff()
print("built", units)
