#!/usr/bin/env python3
"""Writes DESIGN.md from its fixed part (tools/design_head.md, tools/design_tail.md),
the header comments of the harnesses, checks.py and the seeded changes."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
props.sort(key=lambda p: p["id"])
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); d["name"] = m.split("/")[-2]
    seeds.setdefault(d["property"], []).append(d)
o = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]; c = checks.CHECKS[i]
    head = []
    for l in open(os.path.join(V, "harness", i.lower(), "main.go")):
        if l.startswith("package"): break
        head.append(l.lstrip("/").strip())
    h = " ".join(head); h = h[h.index(":") + 1:].strip()
    o += ["### %s %s" % (i, p["title"]), "", "Monitor: " + h[0].upper() + h[1:], "", "Decided by: " + c["technique"] + "."]
    if c["note"]:
        o += ["", "Reach and bounds: " + c["note"][0].upper() + c["note"][1:].rstrip(".") + "."]
    try:
        e = json.load(open(os.path.join(V, "evidence", i + ".json"))); cov = e["coverage"]
        if e["tier"] == "quick":
            o += ["", "Quick run: %s evaluations, %s distinct observations, %d s%s." % (cov["evaluations"], cov["distinct_nontrivial"], round(e["wall_s"]), "; under the race detector as well" if "race" in c.get("phases", []) else "")]
    except (OSError, KeyError): pass
    for s in seeds.get(i, []):
        o += ["", "Seeded change %s: %s Needs: %s" % (s["name"], s["what_it_breaks"].rstrip(".") + ".", s["needs"].rstrip(".") + ".")]
    o += [""]
o += ["## Seeded changes and the checks that catch them", "", "| change | property | caught by |", "|---|---|---|"]
for i in sorted(seeds):
    for s in seeds[i]: o.append("| %s | %s | %s |" % (s["name"], i, s.get("caught_by", i)))
o += ["", open(os.path.join(V, "tools", "design_tail.md")).read().rstrip()]
t = "\n".join(o) + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write(t)
print(len(t.split("\n")), "lines")
