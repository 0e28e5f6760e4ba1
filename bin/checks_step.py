"""C23: the non-monotonic step evaluator against StepEvaluator.tla."""
from vlib import *

GEN = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nCHECK_DEADLOCK FALSE\n"


def step_check(pid):
    import checks_solver
    c = Check(pid)
    c.build("step_driver", "solver_driver")
    c.design("MC_StepEvaluator.tla", "MC_StepEvaluator.cfg")
    for n, num in ((15, 300), (60, 150)):
        num *= 20 if THOROUGH else 1
        sc = c.scripts("StepEvaluatorGen.tla", c.write_cfg("g%d.cfg" % n, GEN % n), num, n * 2 + 9, SEED * 10 + n)
        lines = ["%d %s %d %s" % (s["win"], s["steps"][0], len(s["steps"]) - 1,
                                  " ".join("%s %s %d" % tuple(x) for x in s["steps"][1:])) for s in sc]
        c.sample(lines[0])
        c.validate("StepEvaluatorTrace.tla", "StepEvaluatorTrace.cfg", c.drive("step_driver", lines), chunk=3000)
    # and inside the minimizer
    n = 1500 if THOROUGH else 150
    tr = c.drive("solver_driver", ["tr %d nonmono" % (SEED * 1000003 + 700000 + i) for i in range(n)])
    c.validate("TrustRegionTrace.tla", c.write_cfg("tr.cfg", checks_solver.CFG % '"C05"'), tr, chunk=2000)
    return c.finish()


TABLE = {"C23": step_check}
