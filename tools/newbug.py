#!/usr/bin/env python3
"""newbug.py FILE...: each FILE is a Python file defining ID, PROPERTY, NEEDS,
BREAKS, EDITS (list of (file, old, new)) and DEMO (C++ source).  Writes
/verif/seeded/ID, checks that the demonstration tells the two trees apart."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    out = os.path.join(V, "seeded", d["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    R = "/tmp/mut/nb-" + d["ID"]
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    for g, old, new in d["EDITS"]:
        s = open(R + "/" + g).read()
        assert s.count(old) >= 1, (d["ID"], g, "pattern not found")
        open(R + "/" + g, "w").write(s.replace(old, new, 1))
    p = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(p)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.copytree(V + "/tools/demokit", out + "/kit")
    os.rename(out + "/kit/demo.sh", out + "/demo.sh")
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.cc", "w").write(d["DEMO"].lstrip())
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=R, capture_output=True, text=True)
    good = a.returncode == 0 and b.returncode not in (0, 2)
    print(d["ID"], "OK" if good else "BAD", "clean:", a.returncode, a.stdout[-600:] if a.returncode else "", "patched:", b.returncode, b.stdout[-300:] + b.stderr[-300:], flush=True)
    shutil.rmtree(R, ignore_errors=True)
