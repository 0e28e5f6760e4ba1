"""C13: matrix containers against Matrices.tla."""
from vlib import *


def matrix_check(pid):
    c = Check(pid)
    c.build("matrix_driver")
    c.design("MC_Matrices.tla", "MC_Matrices.cfg")
    lines = []
    k = 25 if THOROUGH else 1
    for mode, n in (("H", 3200), ("Y", 400), ("V", 1600), ("R", 900), ("K", 500), ("U", 400)):
        lines += ["%s %d" % (mode, SEED * 1000003 + i) for i in range(n * k)]
    c.sample("H %d" % (SEED * 1000003))
    c.validate("MatricesTrace.tla", "MatricesTrace.cfg", c.drive("matrix_driver", lines), chunk=2500)
    return c.finish()


TABLE = {"C13": matrix_check}
