#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, then a section per property, then the
planted bugs. design.py REPORTS... reads the reports of a whole gvc run, and
the table of what each planted bug fails (tools/caught.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, NA = {}, {}
def check(p, note, bounded, assumptions=(), level="proof", trusted=()):
    T[p] = dict(note=note, bounded=bounded, assumptions=list(assumptions))
exec(open(os.path.join(V, "tools", "checks_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ev = {}
for p in props:
    f = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        ev[p["id"]] = json.load(open(f))["coverage"]
more = json.load(open(os.path.join(V, "tools", "design_props.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in T:
        out.append("Not applicable: %s.\n" % NA.get(i, ""))
        continue
    t, c = T[i], ev.get(i)
    out.append(t["note"] + "\n")
    if i in more:
        out.append(more[i] + "\n")
    if c:
        out.append("Obligations: %d in %d functions under contract, %d discharged; %.0f s of solver time.\n" % (
            c["obligations"], c["functions_under_contract"], c["discharged"], c["solver_ms"] / 1000.0))
        fs = c["functions_verified"]
        if len(fs) <= 40:
            out.append("Functions: " + ", ".join("`%s`" % x for x in fs) + ".\n")
    out.append("Stand-in (bounded): " + t["bounded"] + (" Tests: " + ", ".join(sorted(x.split(" ")[0] for x in c["bounded_tests"])) + "." if c else "") + "\n")
    if t["assumptions"]:
        out.append("Assumes: " + "; ".join(t["assumptions"]) + ".\n")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
ca = json.load(open(os.path.join(V, "tools", "caught.json")))
out.append("| planted bug | property | breaks | failed obligations | failing input |\n|---|---|---|---|---|")
for b in sorted(ca):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    o = ca[b]["obl"]
    out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "),
        ", ".join("`%s`" % x for x in o[:3]) + (" and %d more" % (len(o) - 3) if len(o) > 3 else "") if o else "none: "+ca[b].get("why","outside the contracts"), ca[b].get("input", "yes")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
