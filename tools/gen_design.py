#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
caught = {"s12-unlocked-return": "C12 parts", "t01-row-256": "C01 long", "t02-many-chunks-per-shard": "C02 dense (missed before `dense` was added), C25",
          "t10-rows-kept-back": "C10 s3", "t14-connection-kept": "C12 identical (hang)", "t22-shared-text": "C22 threads"}
rows = ["| bug | property | needs | caught by (quick tier) |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, m["property"])))
s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(p, "w").write(s)
