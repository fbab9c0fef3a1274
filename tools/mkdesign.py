#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (below the marker line) from
properties.jsonl, the harness headers, seeded/*/meta.json and seed_results.json"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/mkdesign.py from here on -->"
out = [MARK, "", "## Checks, one per property", ""]
res = {}
if os.path.exists(V + "/seed_results.json"):
    res = json.load(open(V + "/seed_results.json"))
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "* quantified over %s: %s" % (", ".join(p["quantifier"]["over"]), p["quantifier"]["text"]),
            "* why tests cannot settle it: " + p["why_tests_cant"],
            "* anchored in " + ", ".join(p["anchors"]["files"])]
    for h in sorted(glob.glob(V + "/harness/%s*.cc" % p["id"].lower())):
        ent = []
        for l in open(h):
            m = re.match(r"//@ (\w+) (.*)", l)
            if not m: continue
            k, t = m.group(1), m.group(2).strip()
            if k == "bounds": out.append("* bounds: " + t)
            elif k == "assume": out.append("* assumes: " + t)
            elif k == "entry": ent.append("`%s`%s" % (t.split()[0], " (interleavings)" if " mt" in " " + t else ""))
        out.append("* entries of harness/%s: %s" % (os.path.basename(h), ", ".join(ent)))
    if p["id"] in seeds:
        out.append("* planted changes: " + "; ".join("`%s` (%s)" % (n, res.get(n, "not yet run")) for n, d in seeds[p["id"]]))
    out.append("")
s = open(V + "/DESIGN.md").read()
s = s.split(MARK)[0].rstrip("\n") + "\n\n" + "\n".join(out).rstrip("\n") + "\n"
open(V + "/DESIGN.md", "w").write(s)
