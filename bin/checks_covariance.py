"""C15: covariance against Covariance.tla."""
from vlib import *


def covariance_check(pid):
    c = Check(pid)
    c.build("covariance_driver")
    c.design("MC_Covariance.tla", "MC_Covariance.cfg")
    lines = []
    k = 25 if THOROUGH else 1
    for mode, n in (("G", 2400), ("N", 500), ("E", 700)):
        lines += ["%s %d" % (mode, SEED * 1000003 + i) for i in range(n * k)]
    c.sample("G %d" % (SEED * 1000003))
    c.validate("CovarianceTrace.tla", "CovarianceTrace.cfg", c.drive("covariance_driver", lines), chunk=1200)
    return c.finish()


TABLE = {"C15": covariance_check}
