#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"merge-accepts-castable-alias": "nearly equal definitions in both registries", "resize-twice-used-field": "compounds that use a type twice",
          "compare-merges-padding": "writes to padding before comparisons", "ruby-offset-after-gap": "gaps between fields given by offsets",
          "listing-filter-prefix": "sources that are prefixes of each other", "export-first-template-argument": "templates with a common first argument",
          "source-id-copied-over": "the same alias, with sources, in both registries", "enum-value-text-trimmed": ""}
rows = ["| bug | check | needs | |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    n = d.split("/")[-2]
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], " ".join(str(m["needs"]).split()).replace("|", "/"),
                                             ("missed first; added: " + MISSED[n]) if n in MISSED else ""))
p = ROOT + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted bugs -->", "<!-- end -->"
t = "%s\n%s\n%s" % (a, "\n".join(rows), b)
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else:
    s = s.rstrip() + "\n\n" + t + "\n"
open(p, "w").write(s)
