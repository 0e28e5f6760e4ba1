"""C12: linear solvers and the preparation of problems against LinearSetup.tla."""
from vlib import *


def linear_check(pid):
    c = Check(pid)
    c.build("linear_driver")
    c.design("MC_LinearSetup.tla", "MC_LinearSetup_deep.cfg" if THOROUGH else "MC_LinearSetup.cfg")
    k = 25 if THOROUGH else 1
    lines = []
    for mode, n in (("M", 3000), ("S", 1600)):
        lines += ["%s %d" % (mode, SEED * 1000003 + i) for i in range(n * k)]
    c.sample("S %d" % (SEED * 1000003))
    c.validate("LinearTrace.tla", "LinearTrace.cfg", c.drive("linear_driver", lines), chunk=800)
    return c.finish()


TABLE = {"C12": linear_check}
