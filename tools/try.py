#!/usr/bin/env python3
"""Debugging aid: drives scenarios and lists every trace a spec rejects.
try.py DRIVER SPEC CFGTEXT-FILE 'PROFILE' FROM COUNT"""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.dont_write_bytecode = True
from vlib import *

def main():
    driver, spec, cfg, profile, lo, n = sys.argv[1:7]
    c = Check("try")
    c.build(driver)
    if profile.startswith("@"):              # scenario lines from a file
        lines = open(profile[1:]).read().splitlines()[int(lo):int(lo) + int(n)]
        tr = [x for x in c.drive(driver, lines, shards=8)]
    else:
        lines = ["%s %d" % (profile, int(lo) + i) for i in range(int(n))]
        tr = c.drive(driver, lines, shards=1)
    f = os.path.join("/tmp", "try.ndjson")
    open(f, "w").write("\n".join(tr) + "\n")
    bad, outs = {}, {}

    def one(k):
        idx = list(range(k, len(tr), 8))
        n = 0
        while idx:
            g = "/tmp/try.%d.ndjson" % k
            open(g, "w").write("\n".join(tr[i] for i in idx) + "\n")
            r = c.tlc(spec, os.path.abspath(cfg), env={"TRACES": g}, timeout=3000, workers=1, heap="2g")
            o = r.stdout
            if "No error has been found" in o:
                break
            t = re.findall(r"^(?:/\\ )?t = (\d+)$", o, re.M)
            l = re.findall(r"^(?:/\\ )?l = (\d+)$", o, re.M)
            if not t:
                print(o[-3000:])
                break
            i = idx[int(t[-1]) - 1]
            bad[i + 1] = {int(l[-1])}
            outs[i + 1] = o
            idx.remove(i)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(8)))
    for t in outs:
        open("/tmp/try.%d.out" % t, "w").write(outs[t])
    for t in sorted(bad)[:12]:
        ev = json.loads(tr[t - 1])["ev"]
        l = max(bad[t])
        print(lines[t - 1], "event", l, "of", len(ev), json.dumps(ev[l - 1])[:160] if l <= len(ev) else "")
    print(len(bad), "rejected of", len(tr))
    shutil.rmtree(c.tmp, ignore_errors=True)
main()
