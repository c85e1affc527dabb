#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and the reasons below."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REASON = {
    "Z01": "a round trip through printing and parsing is a relation between run-time strings of unbounded size; no static rule in reach decides it",
    "Z02": "equality of formatted and re-parsed values quantifies over run-time data; only the memory safety of the parser is decided (P01)",
    "Z03": "equality of whole-array results quantifies over run-time shapes; the static parts (stride discipline, child handling, operators) are K01-K03, N06, N07",
    "Z04": "the fold equality quantifies over run-time shapes, axes and data; only structural parts are decidable and are covered by K01-K03",
    "Z05": "bit-exact rounding over all patterns needs a solver or exhaustive execution; interval reasoning cannot decide it",
    "Z06": "permutation and order of sorted data are run-time facts about std::sort with run-time comparators",
    "Z07": "code-point preservation over all strings is a run-time relation; the buffer discipline of the same functions is decided by P02",
    "Z08": "completeness of pattern matching quantifies over unbounded type terms and run-time bindings",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "./run %s" % i, "thorough_cmd": "./run %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no check built yet; a static rule is planned in DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "./run --setup", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print("claimed:", [c["property"] for c in checks])
