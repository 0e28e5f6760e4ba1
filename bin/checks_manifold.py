"""C20: manifolds against Manifolds.tla."""
import json
from vlib import *

GEN = "SPECIFICATION Spec\nCONSTANTS MaxLeaves = %d\n Curved = %s\nCHECK_DEADLOCK FALSE\n"


def flat(s):
    out = []
    for tok in s:
        for x in tok:
            out.append("%d %s" % (len(x), " ".join(map(str, x))) if isinstance(x, list) else str(x))
    return " ".join(out)


def manifold_check(pid):
    c = Check(pid)
    c.build("manifold_driver")
    c.design("MC_Manifolds.tla", "MC_Manifolds.cfg")
    lines = []
    for curved, n in (("FALSE", 900), ("TRUE", 1500)):
        n *= 20 if THOROUGH else 1
        for leaves, part in ((1, n // 6), (3, n // 2), (8, n // 3)):
            sc = c.scripts("ManifoldsGen.tla", c.write_cfg("g.cfg", GEN % (leaves, curved)), part, 60, SEED * 20 + leaves)
            lines += ["%d %s" % (SEED * 1000003 + len(lines) + i, flat(s)) for i, s in enumerate(sc)]
    c.sample(lines[-1])
    c.validate("ManifoldsTrace.tla", "ManifoldsTrace.cfg", c.drive("manifold_driver", lines), chunk=6000)
    return c.finish()


TABLE = {"C20": manifold_check}
