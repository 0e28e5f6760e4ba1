"""C17: ordered partitions, graph orderings and clusterings against Orderings.tla."""
from vlib import *

GEN = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n N = %d\nCHECK_DEADLOCK FALSE\n"


def ordering_check(pid):
    c = Check(pid)
    c.build("ordering_driver")
    c.design("MC_Orderings.tla", "MC_Orderings.cfg")
    big = 15 if THOROUGH else 1
    lines = []
    for n, ln, num in ((3, 12, 200), (6, 40, 150)):
        sc = c.scripts("OrderedGroupsGen.tla", c.write_cfg("g%d.cfg" % n, GEN % (ln, n)), num * big, ln + 3, SEED * 10 + n)
        lines += ["G %d %d %s" % (i % 2, n, " ".join(" ".join(str(x) for x in s) for s in st)) for i, st in enumerate(sc)]
    # every graph on up to five vertices (thorough: six), with seeded weights
    for n in range(1, 7 if THOROUGH else 6):
        lines += ["E %d %d %d" % (n, m, SEED * 977 + m) for m in range(1 << (n * (n - 1) // 2))]
    base = SEED * 1000003
    lines += ["H %d" % (base + i) for i in range(400 * big)]
    lines += ["L %d" % (base + i) for i in range(30 * big)]
    lines += ["V %d" % (base + i) for i in range(300 * big)]
    lines += ["P %d" % (base + i) for i in range(1500 * big)]
    c.sample(lines[0])
    c.validate("OrderingTrace.tla", "OrderingTrace.cfg", c.drive("ordering_driver", lines), chunk=6000)
    return c.finish()


TABLE = {"C17": ordering_check}
