#!/usr/bin/env python3
"""check.py PROPERTY: decides one property.  See DESIGN.md."""
import glob, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

TABLE = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks_*.py"))):
    TABLE.update(importlib.import_module(os.path.basename(f)[:-3]).TABLE)
if __name__ == "__main__":
    sys.exit(vlib.main(TABLE))
