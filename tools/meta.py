#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and specs.json from the entries below (run from /verif after editing)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
ENTRIES, NOT_APPLICABLE = [], []


def P(id, title, statement, over, quant, why, files, mechanism, observe, rule, technique, note, pkg=None, kind="go",
      level="exploration", assumptions=(), state=(), **spec):
    ENTRIES.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                        mechanism=mechanism, observe=observe, rule=rule, technique=technique, note=note, level=level,
                        assumptions=list(assumptions), state=list(state), pkg=pkg or id.lower(), kind=kind, spec=spec))


exec(open(os.path.join(ROOT, "tools", "entries.py")).read())


def main():
    ids = [e["id"] for e in ENTRIES]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e in ENTRIES:
            assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
            f.write(json.dumps({
                "id": e["id"], "title": e["title"], "statement": e["statement"],
                "quantifier": {"over": e["over"], "text": e["quant"]}, "why_tests_cant": e["why"],
                "anchors": {"files": e["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in e["mechanism"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in e["state"]],
                            "observe_at": e["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [
        {"property": e["id"], "quick_cmd": "python3 check.py %s quick" % e["id"],
         "thorough_cmd": "python3 check.py %s thorough" % e["id"], "technique": PBT + e["technique"],
         "level": e["level"], "level_note": e["note"]} for e in ENTRIES],
        "not_applicable": NOT_APPLICABLE}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    # how many times the basic number of cases a quick run makes (as long as its time budget lasts)
    quick = dict({i: 3 for i in "C01 C02 C03 C04 C05 C06 C07 C09 C12 C13 C14 C15 C16 C19 C20 C21 C24 C25 C27 C29 C30".split()},
                 **{i: 2 for i in "C08 C17 C18 C23 C26 C28".split()}, C22=1.5, C10=1.5)
    specs = {}
    for e in ENTRIES:
        specs[e["id"]] = dict({"kind": e["kind"], "pkg": e["pkg"], "level": e["level"], "rule": e["rule"], "quick_scale": quick[e["id"]],
                               "assumptions": e["assumptions"]}, **e["spec"])
    json.dump(specs, open(os.path.join(ROOT, "specs.json"), "w"), indent=1)


main()
