"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["what_it_breaks"], m["needs"]))
head = "## Planted bugs\n"
p = R + "/DESIGN.md"
s = open(p).read().split(head)[0].rstrip() + "\n\n" + head + """
Each is reported by the check of its own property (`tools/catch.sh ID`); `tools/trybug.sh ID` validates it. Besides these,
every single-token change of a list (comparisons, constants, sides, colours, bounds, statements dropped: 1200 of them) was built
and run against the tests, and the survivors against the checks: see "Mutation survey".

| planted | reported by | what it breaks | what it needs |
|----|----|----|----|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
