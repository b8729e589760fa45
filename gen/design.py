#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, the notes, the rule texts of the last evidence and the planted changes."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "gen"))
import props  # noqa: E402
from design_notes import HOW, NOTES, TAIL  # noqa: E402

EV = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d["needs"]))
known = [l.rstrip("\n") for l in open(os.path.join(V, "known-findings.txt")) if l.startswith(("fixed:", "finding:"))]
out = [HOW.strip(), "", "## The properties", ""]
na = []
for p in props.P:
    if p["na"]:
        na.append(p)
        continue
    out += ["### %s — %s" % (p["id"], p["title"]), "", p["statement"], "",
            "*Decided by:* %s. %s" % (p["technique"], p["note"] or ""), ""]
    f = os.path.join(EV, p["id"] + ".json")
    if os.path.exists(f):
        c = json.load(open(f))["coverage"]
        t = c.get("explanation", "")
        rules = re.findall(r"\[([\w-]+)\] (.*?)(?= \[[\w-]+\] |$)", t[t.find("Rules:"):])
        if rules:
            out += ["*Rules* (an instance is a place of the current source the rule had to decide):", ""]
            out += ["- `%s`: %s" % r for r in rules]
            cnt = ["%s %d" % (k.replace("_", " "), v) for k, v in c.items() if isinstance(v, int) and k != "rules"]
            out += ["", "*Instances:* " + ", ".join(cnt) + ".", ""]
    out += ["*Why tests cannot:* %s *Quantifier:* %s." % (p["why"], p["text"]), ""]
    if NOTES.get(p["id"]):
        out += ["*Assumptions, limits, history:*", ""] + ["- " + n for n in NOTES[p["id"]]] + [""]
    s = seeds.get(p["id"])
    if s:
        out += ["*Planted changes caught by this check:*", ""] + ["- `%s` — needs %s" % x for x in s] + [""]
    k = [x for x in known if "property=%s " % p["id"] in x]
    if k:
        out += ["*Genuine defects found:*", ""]
        for x in k:
            m = re.match(r"fixed: property=\S+ (\S+) (.*)", x)
            if m:
                out.append("- fixed in %s: %s" % m.groups())
            else:
                out.append("- recorded: " + x.split("::", 1)[-1].strip())
        out.append("")
if na:
    out += ["## Properties static analysis cannot decide here", ""]
    for p in na:
        out += ["- **%s — %s**: %s *Not applicable:* %s" % (p["id"], p["title"], p["statement"], p["na"])]
    out.append("")
out.append(TAIL.strip())
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out), "lines")
