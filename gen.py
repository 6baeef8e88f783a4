#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS, NA
TECH = "symbolic execution of the compiled sources (LLVM IR), every branch and assertion decided by Z3 over all values within bounds; counterexamples replayed natively"
KEYS = ("title", "statement", "quantifier", "why_tests_cant", "anchors")
ids = sorted(set(PROPS) | set(NA))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in ids:
        p = PROPS.get(i) or NA[i]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict([("id", i)] + [(k, p[k]) for k in KEYS])) + "\n")
checks = []
for i in sorted(PROPS):
    p = PROPS[i]
    checks.append(dict(
        property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique=p.get("technique", TECH), level=p.get("level", "model_checking"),
        level_note="Bounded: %s. All values of the symbolic inputs within the bounds are decided by the solver; nothing is claimed outside them. "
        "Trusts clang's IR, the engine in engine/, Z3, real-number semantics of doubles (rounding not modelled) and the exact 3x3 model of GSL's matrix routines.%s"
        % (p["bounds"], (" " + p["note"]) if p.get("note") else "")))
m = dict(version=1, setup_cmd="true", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]["reason"]) for i in sorted(NA)],
         notes="No hooks: /repo is compiled as it is; the instrumentation is a compiler pass in /verif/engine. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
import subprocess
for schema, docs in (("/root/.vp/MANIFEST.schema.json", [m]), ("/root/.vp/PROPERTIES.schema.json", [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))])):
    if os.path.exists(schema):
        try:
            import jsonschema
            for d in docs: jsonschema.validate(d, json.load(open(schema)))
        except ImportError:
            pass
print(len(checks), "checks,", len(NA), "not applicable")
