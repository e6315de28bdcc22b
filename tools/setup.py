#!/usr/bin/env python3
"""Builds everything the checks need (objects of /repo's sources, drivers, Java operators)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.java_overrides()
vlib.library()
for f in sorted(glob.glob(os.path.join(vlib.VERIF, "harness", "*_drv.cpp"))):
    vlib.driver(os.path.basename(f)[:-4])
if os.path.exists(os.path.join(vlib.VERIF, "tools", "rlib.py")):
    import rlib
    rlib.build()
    rlib.build("Rpackage_F")
print("ready")
