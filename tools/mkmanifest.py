"""Writes MANIFEST.json: the claimed checks, and reasons for the rest."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
TV = "TLA+ (TLC): model checking of the specification, and trace validation of the real code against it"
NOTE = {}
exec(open(V + "/tools/manifest_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "python3 bin/check.py " + i,
                       "technique": NOTE[i].get("technique", TV), "level": NOTE[i].get("level", "model_checking"),
                       "level_note": NOTE[i]["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC.  Every check rebuilds the library and its driver from /repo's working tree into /verif/.build."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
