#!/usr/bin/env python3
"""Writes DESIGN.md from tools/props.py, the rules in the sources of the checks, the findings and the planted bugs."""
import json, os, re, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, q, why, files, mech, observe=None, built=True, technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                  mech=mech, observe=observe, built=built, technique=technique, note=note, na=na))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())
exec(open(os.path.join(ROOT, "tools", "design_text.py")).read())

def source_of(id):
    if id == "C01":
        return "mc/src/props/readline.rs"
    for d in ("mc", "mcx", "mcw"):
        f = "%s/src/props/%s.rs" % (d, id.lower())
        if os.path.exists(os.path.join(ROOT, f)):
            return f
    return None

def rule_of(f):
    s = open(os.path.join(ROOT, f)).read()
    m = re.search(r'rule: "((?:[^"\\]|\\.)*)"', s, re.S)
    rule = re.sub(r"\\\n\s*", "", m.group(1)).replace('\\"', '"')
    m = re.search(r"assumptions: &\[(.*?)\]", s, re.S)
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1)) if m else []
    return re.sub(r"\s+", " ", rule), ass

NFIXED = len({l.split()[2] for l in open(os.path.join(ROOT, "known_findings.jsonl")) if l.startswith("fixed:")})
out = [PREFIX.strip().replace("@FIXED@", str(NFIXED)) + "\n"]
fixed, known = {}, {}
for l in open(os.path.join(ROOT, "known_findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    elif l:
        d = json.loads(l)
        known.setdefault(d["property"], []).append(d)
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))

out.append("## Properties\n")
for d in P:
    id = d["id"]
    out.append("### %s. %s\n" % (id, d["title"]))
    out.append(d["statement"] + "\n")
    if d["na"]:
        out.append("Not claimed: " + d["na"] + "\n")
        continue
    f = source_of(id)
    rule, ass = rule_of(f)
    out.append("- **Why tests cannot settle it**: " + d["why"])
    out.append("- **Decided by**: %s (`%s`)." % (d["technique"], f))
    out.append("- **Enumerated, with bounds**: " + rule)
    t = TEXT.get(id)
    if t:
        out.append("- **Oracle and binding to the code**: " + t)
    if id in COST:
        out.append("- **Cost** (8 cores): " + COST[id])
    if ass:
        out.append("- **Assumed**: " + "; ".join(ass) + ".")
    if id in fixed:
        out.append("- **Defects found and repaired**: " + "; ".join("%s (`%s`)" % (w, c) for c, w in fixed[id]) + ".")
    if id in known:
        ws = {}
        for k in known[id]:
            ws.setdefault(k["what"], []).append(k["key"])
        out.append("- **Known findings**: " + "; ".join("%s (%d listed)" % (w, len(k)) for w, k in ws.items()) + ".")
    if id in seeds:
        out.append("- **Planted bugs**: " + "; ".join(
            "`%s` (%s): %s" % (n, s["what_it_breaks"].rstrip("."), CAUGHT.get(n, "caught by the quick check")) for n, s in seeds[id]) + ".")
    out.append("")
out.append(SUFFIX.strip() + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
