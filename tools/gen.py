#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, q, why, files, mech, observe=None, built=True, technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                  mech=mech, observe=observe, built=built, technique=technique, note=note, na=na))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        o = {"id": d["id"], "title": d["title"], "statement": d["statement"],
             "quantifier": {"over": d["over"], "text": d["q"]},
             "why_tests_cant": d["why"],
             "anchors": {"files": d["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}}
        if d["observe"]:
            o["anchors"]["observe_at"] = d["observe"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")

man = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for d in P:
    if d["na"] or not d["built"]:
        man["not_applicable"].append({"property": d["id"], "reason": d["na"] or "its check is not built yet"})
    else:
        man["checks"].append({
            "property": d["id"],
            "quick_cmd": "./run.sh check %s quick" % d["id"],
            "thorough_cmd": "./run.sh check %s thorough" % d["id"],
            "technique": d["technique"], "level": "model_checking", "level_note": d["note"]})
man["notes"] = "Every check is bounded exhaustive exploration of the real code by the engine in mc/ (mcx/ and mcw/ for the crates with other dependencies), against an independent model; see DESIGN.md. No hooks in /repo are needed."
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
