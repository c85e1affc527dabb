#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, the checks' own rule texts, the planted-bug table and the defect list."""
import glob, importlib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
props = {p["id"]: p for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
parts = open(os.path.join(ROOT, "tools", "design.txt")).read().split("\n@@")
head, sec, tail = parts[0], {}, ""
for s in parts[1:]:
    k, t = s.split("\n", 1)
    if k == "TAIL":
        tail = t.strip()
    else:
        sec[k.strip()] = t.strip()
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
out = [head.strip(), "", "## The properties"]
for c in man["checks"]:
    i = c["property"]
    m = importlib.import_module("checks." + i.lower())
    out += ["", "### %s: %s" % (i, props[i]["title"]), "*Method:* %s. *Level:* %s." % (m.TECHNIQUE, m.LEVEL), "",
            "*Rule:* `%s`" % getattr(m, "RULE", ""), "", m.NOTE, "", sec.get(i, "")]
    if i in seeds:
        out.append("")
        out.append("Planted: " + "; ".join("`%s` (%s)" % (n, d["what_it_breaks"]) for n, d in seeds[i]) + ".")
out += ["", "## Not claimed", ""]
for n in man["not_applicable"]:
    out.append("- **%s** (%s): %s." % (n["property"], props[n["property"]]["title"], n["reason"].rstrip(".")))
out += ["", "## Planted bugs and the checks that catch them", "",
        "Every one compiles, passes the 380 stable tests and has a demonstration that fails; each is reported by the check of its property.", "",
        "| planted bug | check | needs |", "|---|---|---|"]
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append("| %s | %s | %s |" % (n, i, d["needs"].replace("|", "/")))
out += ["", "## Defects found", "",
        "Repaired in `/repo` with `fix:` commits, or recorded in `known_findings.txt` (the check prints KNOWN-FINDING and stays quiet for exactly that obligation).", ""]
for l in open(os.path.join(ROOT, "known_findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        w = l.split(None, 3)
        out.append("- fixed %s (%s): %s" % (w[2], w[1].split("=")[1], w[3]))
    elif l.startswith("# ") and l[2:9].strip().isalnum() and len(l.split()[1]) == 7:
        w = l.split(None, 2)
        out.append("- fixed %s: %s" % (w[1], w[2]))
    elif " | " in l and not l.startswith("#"):
        a, b, c = l.split(" | ", 2)
        out.append("- open, %s, `%s`: %s" % (a, b, c))
out += ["", tail, ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
