"""C18: TinySolver against TinySolver.tla."""
from vlib import *


def tiny_check(pid):
    c = Check(pid)
    c.build("tiny_driver")
    c.design("MC_TinySolver.tla", "MC_TinySolver.cfg")
    n = (6000 if THOROUGH else 150)
    lines = ["%d %d" % (i % 13, SEED * 1000003 + i) for i in range(n * 13)]
    c.sample(lines[0])
    c.validate("TinySolverTrace.tla", "TinySolverTrace.cfg", c.drive("tiny_driver", lines), chunk=4000)
    return c.finish()


TABLE = {"C18": tiny_check}
