#!/usr/bin/env python3
"""DESIGN.md = head.md + a section per property (registry.py, last evidence) + tail.md"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import registry
ORACLE = dict(l.rstrip("\n").split(" ", 1) for l in open(HERE + "/oracles.txt"))
out = [open(HERE + "/head.md").read()]
for k in sorted(registry.PROPS):
    v = registry.PROPS[k]
    f = os.path.join(V, "evidence", k + ".json")
    out.append("### %s %s" % (k, v["title"]))
    if v.get("harnesses"):
        out.append("* Harness: %s." % ", ".join("`%s` (%s)" % (h["name"], h["src"]) for h in v["harnesses"]))
    out.append("* Oracle: %s." % ORACLE.get(k, "see the harness"))
    out.append("* Bounds: %s." % v["bounds"])
    if os.path.exists(f):
        w = json.load(open(f))
        if w.get("tier") == "quick":
            out.append("* Cost: about %d paths, %d solver queries, %.0f s wall including the build." % (
                w["coverage"]["states"], w["coverage"]["solver_queries"], w["wall_s"]))
    out.append("* Beyond tests: %s\n" % v["why_tests_cant"])
for k, v in sorted(registry.NA.items()):
    out.append("### %s %s\n* Not applicable: %s\n" % (k, v["title"], v["reason"]))
out.append(open(HERE + "/tail.md").read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
