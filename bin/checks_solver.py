"""C04 - C08: solves of random problems against TrustRegion.tla."""
import json
from vlib import *
from checks_gradient import gradient_traces

CFG = """SPECIFICATION TSpec
CONSTANTS
  CLt <- DLt
  CTie <- Close
  Focus = {%s}
INVARIANT Coherent
CHECK_DEADLOCK TRUE
"""


def solver_check(pid, profiles):
    c = Check(pid)
    c.build("solver_driver", *(["gradient_driver"] if pid == "C07" else []))
    c.design("MC_TrustRegion.tla", "MC_TrustRegion.cfg")
    cfg = c.write_cfg("tr.cfg", CFG % ('"%s"' % pid))
    kinds, ends = {}, {}
    for k, (profile, num) in enumerate(profiles):
        num *= 12 if THOROUGH else 1
        lines = ["%s %d" % (profile, SEED * 1000003 + k * 100000 + i) for i in range(num)]
        traces = c.drive("solver_driver", lines)
        for x in traces:
            t = json.loads(x)
            for e in t["ev"]:
                kinds[e["op"]] = kinds.get(e["op"], 0) + 1
            ends[e["type"]] = ends.get(e["type"], 0) + 1
        c.sample(lines[0])
        c.validate("TrustRegionTrace.tla", cfg, traces, chunk=2000)
    more = gradient_traces(c, pid, [("prob", 250)]) if pid == "C07" else {}
    return c.finish({**more, "events": {"evaluations": kinds.get("P"), "callbacks": kinds.get("C"),
                                "solves": kinds.get("E")}, "terminations": ends})


TABLE = {p: (lambda pid: solver_check(pid, [("tr", 300), ("manifold", 80), ("bounds", 150), ("fault", 150), ("plain", 100)]))
         for p in ("C04", "C05", "C06", "C07", "C08")}
