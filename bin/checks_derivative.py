"""C19: derivative wrappers against Derivative.tla."""
from vlib import *


def derivative_check(pid):
    c = Check(pid)
    c.build("autodiff_driver")
    c.design("MC_Derivative.tla", "MC_Derivative_deep.cfg" if THOROUGH else "MC_Derivative.cfg")
    c.design("StridePasses.tla", "StridePasses.cfg")
    lines = []
    k = 25 if THOROUGH else 1
    for mode, n in (("S", 1000), ("D", 1000), ("C", 700), ("W", 1000), ("E", 900), ("P", 400)):
        lines += ["%s %d" % (mode, SEED * 1000003 + i) for i in range(n * k)]
    c.sample("D %d" % (SEED * 1000003))
    c.validate("DerivativeTrace.tla", "DerivativeTrace.cfg", c.drive("autodiff_driver", lines), chunk=1200)
    return c.finish()


TABLE = {"C19": derivative_check}
