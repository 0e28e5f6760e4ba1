#!/usr/bin/env python3
"""setup_cmd: compiles the Java side of Dbl.tla and builds the library once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
c = vlib.Check("setup")
c.java()
try:
    c.build("ceres")
except vlib.ModelError as e:
    print(e)
    sys.exit(1)
print("built")
