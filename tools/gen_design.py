#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, one section per property, the repaired defects and the planted-bug table."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from config import CONFIG
import gen_manifest
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
NOTES = {}
cur = None
for line in open(os.path.join(V, "tools", "design_notes.md")):
    if line.startswith("## "):
        cur = line[3:].strip()
        NOTES[cur] = ""
    elif cur:
        NOTES[cur] += line
o = [HEAD.rstrip(), "", "## Properties", ""]
for p in props:
    c = CONFIG[p["id"]]
    o.append("### %s %s" % (p["id"], p["title"]))
    o.append("")
    o.append("- **Oracle:** %s." % gen_manifest.ORACLE[p["id"]])
    o.append("- **Workload:** %s." % c["rule"])
    fl = lambda t: ", ".join("%s x%d processes%s" % (r["flavour"], r["shards"], "" if r.get("scale", 1) == 1 else " (counts x%g)" % r["scale"]) for r in c[t])
    o.append("- **Runs:** quick %s; thorough %s. %d labels must have been observed or the run does not count." % (fl("quick"), fl("thorough"), len(c.get("require", []))))
    o.append("- **Why beyond the tests:** %s." % p["why_tests_cant"].rstrip("."))
    n = NOTES.get(p["id"], "").strip()
    if n:
        o.append("- **Bounds and decisions:** " + " ".join(n.split()))
    o.append("")
o.append(TAIL.rstrip())
o.append("")
o += ["## Defects repaired", "", "Each line of KNOWN_FINDINGS.txt is one `fix:` commit in /repo; none is left open.", ""]
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed: "):
        o.append("- " + l[7:].strip())
o += ["", "## Planted bugs and what catches them", "", "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = {}
cf = os.path.join(V, "tools", "caught.txt")
if os.path.exists(cf):
    for l in open(cf):
        a = l.split()
        if a: caught[a[0]] = " ".join(a[1:])
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    o.append("| %s | %s | %s (needs: %s) | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(b, m["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
