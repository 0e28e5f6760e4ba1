"""C10, C11: the threading layer under a chosen schedule, against
ParallelLoop.tla, WorkQueue.tla and ThreadingTrace.tla."""
import json
from vlib import *


def seeds(kind, n, base):
    return ["%s %d" % (kind, SEED * 1000003 * 4 + base + i) for i in range(n)]


def enumerated(c, kind, n, bound, most):
    """Every schedule of small scenarios, up to a number of preemptions."""
    lines = ["enum %s %d %d %d" % (kind, SEED * 1009 + i, bound, most) for i in range(n)]
    out, runs, full = [], 0, 0
    for x in c.drive("parallel_driver", lines, timeout=600):
        d = json.loads(x)
        runs += d["runs"]
        full += d["all"]
        out += d["traces"]
    e = c.notes.setdefault("enumerated", {})
    e[kind] = {"scenarios": n, "preemptions": bound, "schedules": runs,
               "scenarios_exhausted": full, "distinct_traces": len(out)}
    return [json.dumps(x, separators=(",", ":")) for x in out]


def loop_check(pid):
    c = Check(pid)
    c.build("parallel_driver")
    c.design("MC_ParallelInvoke.tla", "MC_ParallelInvoke.cfg")
    c.design("MC_ParallelInvoke.tla", "MC_ParallelInvoke2.cfg")
    n = 40 if THOROUGH else 1
    for kind, num in (("loop", 3000), ("part", 1200)):
        tr = c.drive("parallel_driver", seeds(kind, num * n, 0))
        c.sample(tr[0][:600])
        c.validate("ParallelTrace.tla", "ParallelTrace.cfg", tr, chunk=4000)
    tr = enumerated(c, "sloop", 400 if THOROUGH else 24, 3 if THOROUGH else 2, 200000 if THOROUGH else 3000)
    c.validate("ParallelTrace.tla", "ParallelTrace.cfg", tr, chunk=6000)
    return c.finish()


def work_check(pid):
    c = Check(pid)
    c.build("parallel_driver")
    for i in "123":
        c.design("MC_WorkQueue.tla", "MC_WorkQueue%s.cfg" % i)
    n = 40 if THOROUGH else 1
    tr = []
    for kind, num in (("queue", 1500), ("pool", 1500), ("token", 800)):
        tr += c.drive("parallel_driver", seeds(kind, num * n, 0))
        c.sample(tr[-1][:600])
    c.validate("ThreadingTrace.tla", "ThreadingTrace.cfg", tr, chunk=4000)
    tr = []
    for kind in ("queue", "pool", "token"):
        tr += enumerated(c, "s" + kind, 200 if THOROUGH else 16, 3 if THOROUGH else 2, 100000 if THOROUGH else 1500)
    c.validate("ThreadingTrace.tla", "ThreadingTrace.cfg", tr, chunk=6000)
    return c.finish()


TABLE = {"C10": loop_check, "C11": work_check}
