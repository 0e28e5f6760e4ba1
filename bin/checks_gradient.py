"""C09, C22: line searches, directions and the contract of GradientProblemSolver."""
import json
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS
  Focus = {%s}
  Le <- TLe
  Minus <- TMinus
  Times <- TTimes
  Half <- THalf
  Zero <- TZero
  Armijo <- TArmijo
  Curv <- TCurv
  Small <- TSmall
CHECK_DEADLOCK TRUE
"""


def gradient_traces(c, pid, profiles):
    cfg = c.write_cfg("gradient.cfg", CFG % ('"%s"' % pid))
    calls, ends = 0, {}
    for k, (profile, num) in enumerate(profiles):
        num *= 12 if THOROUGH else 1
        lines = ["%s %d" % (profile, SEED * 1000003 + k * 100000 + i) for i in range(num)]
        traces = c.drive("gradient_driver", lines)
        for x in traces:
            e = json.loads(x)["ev"]
            calls += sum(1 for v in e if v["op"] == "F")
            ends[e[-1].get("term", "died")] = ends.get(e[-1].get("term", "died"), 0) + 1
        c.sample(lines[0])
        c.validate("GradientSolverTrace.tla", cfg, traces, chunk=1000)
    return {"function_evaluations": calls, "line_search_terminations": ends}


def gradient_check(pid):
    c = Check(pid)
    c.build("gradient_driver")
    c.design("MC_LineSearch.tla", "MC_LineSearch.cfg")
    return c.finish(gradient_traces(c, pid, [("smooth", 300), ("script", 500), ("nan", 250), ("fault", 150),
                                             ("plus", 150), ("prob", 250)]))


TABLE = {p: gradient_check for p in ("C09", "C22")}
