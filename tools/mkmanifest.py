#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
RUNNOTE = ("Executions of the real finch (built from /repo) against a scripted MySQL server, generated from VERIF_SEED, are "
           "accepted by TLC only if every recorded event is a step of spec/Run.tla whose conditions hold. Covers the explored "
           "scenarios; trusts the scripted server and, for time limits, a stated tolerance.")
TECH, LVL = {}, {}
for p in checks.RUN:
    TECH[p] = "TLA+ specification (Run.tla) with TLC trace validation of real executions"
try:
    TECH.update(checks.TECH)
except AttributeError:
    pass
notes = getattr(checks, "LEVEL_NOTE", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.PARTS and checks.PARTS[i]:
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=TECH[i], level="model_checking",
                                level_note=notes.get(i, RUNNOTE)))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "check under construction") if hasattr(checks, "NA") else "check under construction"))
m["hooks"] = dict(guard="none", enable="no hooks in /repo: the harness uses finch's public plug-in APIs (reporters, generators, transports) and a scripted MySQL server", source_commits=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
