#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, properties.jsonl, MANIFEST.json, known_findings.jsonl and seeded/."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/design.tmpl.md").read()
extra = json.load(open(R + "/tools/design_notes.json"))
man = json.load(open(R + "/MANIFEST.json"))
chk = {c.get("property") or c.get("id"): c for c in man["checks"]} if isinstance(man["checks"], list) else man["checks"]
spec = json.load(open(R + "/specs.json"))
out = []
for l in sorted(open(R + "/properties.jsonl"), key=lambda l: json.loads(l)["id"]):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    c = chk.get(i)
    if c is None:
        na = [n for n in man.get("not_applicable", []) if n["property"] == i]
        out.append("Not claimed: %s\n" % (na[0]["reason"] if na else "?"))
        continue
    out.append("* Decided by: %s." % c["technique"])
    out.append("* Generated over: %s." % p.get("over", p.get("quantified_over", "see properties.jsonl")) if False else "* Non-trivial: %s." % spec[i]["rule"])
    out.append("* Bounds: %s." % (c.get("level_note") or ""))
    for a in spec[i].get("assumptions", []):
        out.append("* Assumes: %s." % a)
    if i in extra["notes"]:
        out.append("* " + extra["notes"][i])
    out.append("")
known = []
for l in open(R + "/known_findings.jsonl"):
    k = json.loads(l)
    if k["status"] == "known":
        known.append("* %s `%s`: %s." % (k["property"], k["id"], k["what"]))
seeds = ["| id | property | needs | caught by the quick check |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), extra["caught"].get(i, "yes")))
t = t.replace("PROPERTIES", "\n".join(out), 1) if False else t
t = t.replace("\nPROPERTIES\n", "\n" + "\n".join(out) + "\n").replace("\nKNOWN\n", "\n" + "\n".join(known) + "\n")
t = t.replace("\nSEEDS\n", "\n" + "\n".join(seeds) + "\n").replace("\nFALSEALARMS\n", "\n" + "\n".join("* " + x for x in extra["false_alarms"]) + "\n")
open(R + "/DESIGN.md", "w").write(t)
