#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from DESIGN.in.md, the checks, known_findings.txt and seeded/ (catches.json)."""
import glob
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import checks
rows = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
tech = {c["property"]: c["technique"] for c in man["checks"]}
out = ["## Properties", ""]
for r in rows:
    if r["id"] not in tech:
        continue
    ck = checks.CHECKS[r["id"]]
    out += ["### %s %s" % (r["id"], r["title"]), "", "*%s.* Technique: %s." % (r["statement"].rstrip("."), tech[r["id"]]), "",
            "- Rule: %s" % ck.rule, "- How: %s" % ck.explanation, "- Tests cannot: %s" % r["why_tests_cant"], ""]
fx = []
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fx.append("| %s | %s | %s |" % m.groups())
try:
    caught = json.load(open(os.path.join(V, "gen", "catches.json")))
except OSError:
    caught = {}
sd = ["| id | property | change needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    sd.append("| %s | %s | %s: %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(i, ["?"])) or "none"))
na = ["- **%s**: %s" % (x["property"], x["reason"]) for x in man["not_applicable"]]
t = open(os.path.join(V, "DESIGN.in.md")).read()
for k, v in (("@PROPERTIES@", out), ("@FIXES@", fx), ("@SEEDED@", sd), ("@NA@", na)):
    t = t.replace(k, "\n".join(v).strip())
open(os.path.join(V, "DESIGN.md"), "w").write(t)
