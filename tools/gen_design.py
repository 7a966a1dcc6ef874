#!/usr/bin/env python3
"""Rewrites the generated tail of DESIGN.md (everything from '## Per property' on) from checks.py, seeded/ and known_findings.jsonl."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
from design_text import ORACLE, MISSED, MUT
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
t = []
for p in props:
    i = p["id"]; c = CHECKS[i]
    sc = {}
    for j in c["jobs"]: sc.setdefault(j["harness"], {}).setdefault(j["scenario"], []).append(j["variant"])
    t.append("### %s %s\n" % (i, p["title"]))
    t.append("*Oracle.* %s\n" % ORACLE[i])
    t.append("*Enumerated.* %s\n" % c["bounds"])
    t.append("*Scenarios.* " + "; ".join("%s: %s" % (h, ", ".join("`%s` (%s)" % (s, "/".join(dict.fromkeys(v))) for s, v in d.items())) for h, d in sc.items()) + "\n")
fx = []
for l in open(H + "/known_findings.jsonl"):
    if l.startswith("fixed:"):
        _, p, cm, txt = l.split(None, 3); fx.append("* %s `%s` %s" % (p.split("=")[1], cm, txt.strip()))
sd = ["| bug | needs | caught |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); sd.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"], m["property"]))
tail = open(H + "/tools/design_tail.md").read()
for k, v in (("TABLE", "\n".join(t)), ("FIXES", "\n".join(fx)), ("SEEDS", "\n".join(sd)), ("MISSED", "\n".join(MISSED)), ("MUT", MUT)): tail = tail.replace("@@%s@@" % k, v)
d = open(H + "/DESIGN.md").read().split("## Per property")[0]
open(H + "/DESIGN.md", "w").write(d.rstrip() + "\n\n" + tail)
