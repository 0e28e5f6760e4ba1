"""C01 (graph history), C02 (ownership), C03 (evaluation): Problem.tla."""
import json
from vlib import *


GEN = """SPECIFICATION GSpec
CONSTANTS
  Slots = {1,2,3,4,5,6,7,8,9}
  Costs = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18}
  Losses = {1,2,3,4,5,6,7,8,9,10,11,12}
  Mans = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18}
  MaxRes = %(MaxRes)d
  MaxLen = %(MaxLen)d
  EvalPct = %(EvalPct)d
  MisusePct = %(MisusePct)d
  SolvePct = %(SolvePct)d
  FailPct = %(FailPct)d
  NSlotsUsed = %(NSlots)d
  MaxBlocks = %(MaxBlocks)d
CHECK_DEADLOCK FALSE
"""


def to_line(s):
    out = [" ".join(str(x) for x in s["own"])]
    for op, a in s["ops"]:
        out.append("| %s %d %s" % (op, len(a), " ".join(str(x) for x in a)))
    return " ".join(out).strip()


def problem_check(pid, profiles):
    c = Check(pid)
    c.build("problem_driver")
    c.design("Problem.tla", "MC_Problem.cfg")
    ops = {}
    fatal = 0
    for k, (num, prof) in enumerate(profiles):
        cfg = c.write_cfg("gen%d.cfg" % k, GEN % prof)
        scripts = c.scripts("ProblemGen.tla", cfg, num, prof["MaxLen"] * 5, SEED * 100 + k)
        lines = [to_line(s) for s in scripts]
        traces = c.drive("problem_driver", lines)
        for x in traces:
            for e in json.loads(x)["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
                fatal += e["r"] == "fatal"
        c.sample(lines[0][:400])
        c.validate("ProblemTrace.tla", "ProblemTrace.cfg", traces, chunk=1500)
    c.assumptions = ["the driver's cost, loss and manifold objects follow the integer formulas of the specification",
                     "aborts are observed through the logging stand-in, which turns a fatal message into an exception"]
    return c.finish({"calls_by_kind": ops, "aborting_calls": fatal})


def c01(pid):
    n = 12 if THOROUGH else 1
    return problem_check(pid, [
        (500 * n, dict(MaxRes=8, MaxLen=34, EvalPct=4, MisusePct=3, SolvePct=2, FailPct=3, NSlots=9, MaxBlocks=8)),
        (150 * n, dict(MaxRes=12, MaxLen=80, EvalPct=2, MisusePct=1, SolvePct=2, FailPct=1, NSlots=6, MaxBlocks=6))])


def c02(pid):
    n = 12 if THOROUGH else 1
    return problem_check(pid, [
        (500 * n, dict(MaxRes=9, MaxLen=40, EvalPct=1, MisusePct=0, SolvePct=3, FailPct=1, NSlots=6, MaxBlocks=6)),
        (150 * n, dict(MaxRes=14, MaxLen=90, EvalPct=0, MisusePct=0, SolvePct=1, FailPct=1, NSlots=5, MaxBlocks=5))])


def c03(pid):
    n = 12 if THOROUGH else 1
    return problem_check(pid, [
        (350 * n, dict(MaxRes=6, MaxLen=40, EvalPct=40, MisusePct=1, SolvePct=2, FailPct=8, NSlots=7, MaxBlocks=5)),
        (60 * n, dict(MaxRes=12, MaxLen=60, EvalPct=35, MisusePct=0, SolvePct=1, FailPct=1, NSlots=9, MaxBlocks=5))])


TABLE = {"C01": c01, "C02": c02, "C03": c03}
