#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python"
if sys.executable != PY:
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na, targets = [], [], set()
for p in props:
    if not os.path.exists(os.path.join(V, "lib/checks/%s.py" % p["id"].lower())):
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    c = importlib.import_module("lib.checks." + p["id"].lower()).CHECK
    for s in c["subs"]:
        targets |= {s.target} | set(getattr(s, "extra_targets", []))
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", "property-based testing: generated inputs against a reference model"),
                   "level": c["level"],
                   "level_note": c.get("note", "Bounded random search, no proof of absence. ") + ("Assumes: " + "; ".join(c["assumptions"]) if c["assumptions"] else "")})
m = {"version": 1, "setup_cmd": "python3 build.py " + " ".join(sorted(targets - {"py:asan"})), "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: everything is observed through the public and internal interfaces, interposed libc calls and a stand-in for minio-cpp. "
              "Replay a case with: python3 check.py replay FILE; the regression corpus with: python3 check.py replay-all."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
