#!/usr/bin/env python3
"""mut.py PATCH|seeded-id CHECK... : applies a patch to a scratch copy of /repo
(kept up to date in /tmp/mut/repo$SLOT), runs the checks on it, undoes it."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/mut/repo" + os.environ.get("SLOT", "")
os.makedirs(R, exist_ok=True)
# checksum: only changed files get new times, so that builds are incremental
subprocess.run(["rsync", "-a", "--checksum", "--delete", "/repo/", R + "/"], check=False) if os.path.exists("/usr/bin/rsync") else \
    (None if os.path.isdir(R + "/.git") else subprocess.run(["cp", "-a", "/repo/.", R], check=True))
subprocess.run(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"]); subprocess.run(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"])
p = sys.argv[1]
if not os.path.exists(p):
    p = V + "/seeded/" + p + "/patch.diff"
subprocess.run(["git", "-C", R, "apply", os.path.abspath(p)], check=True)
try:
    for c in sys.argv[2:]:
        r = subprocess.run([sys.executable, V + "/bin/check.py", c], env={**os.environ, "VERIF_REPO": R, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"},
                           capture_output=True, text=True)
        out = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "C", "KNOWN"))]
        print(os.path.basename(os.path.dirname(os.path.abspath(p))), c, r.returncode, " | ".join(out[-2:])[:200], r.stderr[-300:] if r.returncode == 2 else "", flush=True)
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
