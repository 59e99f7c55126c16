#!/usr/bin/env python3
"""keep.py REPLAY NAME WHAT: copy a replay file into the corpus of its property"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
d = os.path.join(V, "corpus", r["property"])
os.makedirs(d, exist_ok=True)
json.dump({"property": r["property"], "sub": r["sub"], "what": sys.argv[3], "case": r["case"]}, open(os.path.join(d, sys.argv[2] + ".json"), "w"), indent=1)
