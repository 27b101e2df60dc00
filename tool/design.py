#!/usr/bin/env python3
"""Writes the generated half of DESIGN.md: everything below the marker."""
import glob
import importlib
import json
import os
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
MARK = "<!-- generated by tool/design.py -->"


def para(s, ind=""):
    return "\n".join(textwrap.wrap(s, 116, initial_indent=ind, subsequent_indent=ind.replace("*", " ").replace("-", " "),
                                   break_long_words=False, break_on_hyphens=False))


props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
known = json.load(open(os.path.join(ROOT, "known_findings.json")))
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
fixed = {}
for x in known["fixed"]:
    fixed.setdefault(x.split("property=")[1].split()[0], []).append(x.split(None, 3)[2:])
out = ["", "## Per property", ""]
for p in props:
    path = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        continue
    m = importlib.import_module("checks." + p["id"].lower())
    ev = os.path.join(ROOT, "evidence", p["id"] + ".json")
    out += ["### %s %s" % (p["id"], p["title"]), "", para("Rule. " + m.RULE.strip().rstrip(".") + "."), "",
            para("Method. " + m.TECHNIQUE.strip().rstrip(".") + "."), "", para("Bounds. " + m.NOTE.strip()), ""]
    if os.path.exists(ev):
        c = json.load(open(ev))
        k = c["coverage"].get("obligations_by_kind", {})
        out += [para("Obligations on the current tree: " + ", ".join("%s %d" % (a, b["checked"]) for a, b in sorted(k.items())) + ".")]
    out += [para("Out of the tests' reach: " + p["why_tests_cant"])]
    if p["id"] in seeds:
        out += [para("Planted bugs caught: " + ", ".join(n for n, _ in seeds[p["id"]]) + ".")]
    if p["id"] in fixed:
        out += [para("Defects found and repaired: " + "; ".join("%s (%s)" % (" ".join(x[1:]).strip(), x[0]) for x in fixed[p["id"]]) + ".")]
    out += [""]
out += ["## Not applicable", "", "These are also listed under `not_applicable` in MANIFEST.json.", ""]
t = {p["id"]: p["title"] for p in props}
for x in man["not_applicable"]:
    out += [para("* %s %s: %s." % (x["property"], t[x["property"]], x["reason"]), "") ]
out += ["", "## Planted bugs", "",
        "Every planted bug builds, passes the 16 stable tests and has a demonstration that passes on the unchanged tree and",
        "fails with the patch. All are caught by the check of their own property.", "",
        "| bug | property | needs |", "|---|---|---|"]
for c in sorted(seeds):
    for n, d in seeds[c]:
        out += ["| %s | %s | %s |" % (n, c, d["needs"].replace("|", "/"))]
out += ["", para("One was missed when it was first written: append-shares-node-data (C14 judged each slot by itself; it now also "
                 "requires that one data object is never stored at two nodes)."), ""]
out += ["## Known findings", "", "Listed in `known_findings.json`; the check prints a KNOWN-FINDING line for each and exits 0.", ""]
for x in known["findings"]:
    out += [para("* %s: %s. Repairing it means moving the bounds into the data, a change of the public interface." % (x["property"], x["what"]))]
out += ["", "## Repairs", "", "Each is a `fix:` commit in /repo and a `fixed` line in `known_findings.json` (%d lines)." % len(known["fixed"]), ""]
s = open(os.path.join(ROOT, "DESIGN.md")).read().split(MARK)[0].rstrip()
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s + "\n\n" + MARK + "\n" + "\n".join(out).rstrip() + "\n")
