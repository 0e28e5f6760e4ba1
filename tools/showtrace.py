#!/usr/bin/env python3
"""Debugging aid: prints trace N of /tmp/try.ndjson with the hex doubles decoded."""
import json, struct, sys, re
def dec(x):
    if isinstance(x, str) and re.fullmatch("[0-9a-f]{16}", x):
        return float("%.17g" % struct.unpack(">d", bytes.fromhex(x))[0])
    if isinstance(x, list): return [dec(y) for y in x]
    if isinstance(x, dict): return {k: dec(v) for k, v in x.items()}
    return x
tr = json.loads(open("/tmp/try.ndjson").read().split("\n")[int(sys.argv[1]) - 1])
for i, e in enumerate(tr["ev"]): print(i + 1, dec(e))
