"""C16: option sets against Options.tla."""
from vlib import *

LIBS = " DenseLibraries = {\"EIGEN\"}\n SparseLibraries = {\"EIGEN_SPARSE\"}\n NestedDissection = FALSE\nCHECK_DEADLOCK FALSE\n"


def options_check(pid):
    c = Check(pid)
    c.build("options_driver")

    def cfg(api, mode, n):
        return c.write_cfg("%s-%s.cfg" % (api, mode), "SPECIFICATION Spec\nCONSTANTS Api = \"%s\"\n Mode = \"%s\"\n MaxDev = %d\n%s%s"
                           % (api, mode, n, LIBS, "INVARIANT Printed\n" if mode != "mix" else ""))

    def line(api, i, dev):
        return "%s %d %s" % (api[0], i % 4, " ".join("%s %s" % (f, v) for f, v in dev))
    for api in ("solver", "gradient"):
        c.design("MC_Options.tla", c.write_cfg("mc-%s.cfg" % api, "SPECIFICATION Spec\nCONSTANTS Api = \"%s\"\n%s"
                 "INVARIANTS RefusedNeverRuns Irrelevant SameLineSearch\n" % (api, LIBS)))
    lines = []
    for api in ("solver", "gradient"):
        one = c.enumerate("OptionsGen.tla", cfg(api, "pairs", 1))
        two = c.enumerate("OptionsGen.tla", cfg(api, "pairs", 2))
        two = [d for d in two if len(d) == 2]
        if not THOROUGH:
            # single deviations on every problem; a third of the pairs, always
            # those between enumerators and flags
            word = lambda v: v.isalpha() or "_" in v
            two = [d for i, d in enumerate(two) if (i + SEED) % 6 == 0 or all(word(v) for _, v in d)]
        for v in ((0, 1, 2, 3) if api == "solver" else (0,)):
            lines += [line(api, v, d) for d in one]
        for v in ((0, 1, 2, 3) if api == "solver" and THOROUGH else (None,)):
            lines += [line(api, i if v is None else v, d) for i, d in enumerate(two)]
        if api == "solver":
            ls = c.enumerate("OptionsGen.tla", cfg(api, "solvers", 2))
            ls = [d for i, d in enumerate(ls) if THOROUGH or len(d) < 5 or (i + SEED) % 12 == 0]
            lines += [line(api, i, d) for i, d in enumerate(ls)]
        mix = c.scripts("OptionsGen.tla", cfg(api, "mix", 0), (40000 if THOROUGH else 2000) // (1 if api == "solver" else 10),
                        80, SEED * 7 + len(api))
        lines += [line(api, i, d) for i, d in enumerate(mix)]
    c.sample(lines[0])
    tr = c.drive("options_driver", lines)
    c.notes["accepted"] = sum('"valid":true' in x for x in tr)
    c.notes["refused"] = len(tr) - c.notes["accepted"]
    c.validate("OptionsTrace.tla", "OptionsTrace.cfg", tr, chunk=6000)
    return c.finish()


TABLE = {"C16": options_check}
