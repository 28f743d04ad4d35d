"""Rewrites the table of planted changes in DESIGN.md, from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = """c08-onmatch-to-front c24-output-stripped c26-load-updates-settings c23-name-beginning-bundled c32-random-seeded
c32-recursion-limit c22-clearing-forgets-matches c03-long-tokens c32-file-left-open c16-plus-without-space c26-nothing-to-prune
c15-digits-only c23-module-attr c08-consolidate-remembered c18-first-hundred c30-token-ids-shared c31-equal-rules-by-name
c19-many-productions c07-many-warnings c24-many-inputs c30-lazy-lookup""".split()
BEGIN, END = "<!-- planted changes: begin -->", "<!-- planted changes: end -->"
by = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    by.setdefault(m["property"], []).append("%s%s: %s" % (d.split("-", 1)[1], "*" if d in LATER else "", m["what_it_breaks"].rstrip(".")))
out = [BEGIN, "", "| check | catches |", "|---|---|"]
for p in sorted(by):
    out.append("| %s | %s |" % (p, "; ".join(x.replace("|", "\\|").replace("\n", " ") for x in by[p])))
out += ["", END]
path = os.path.join(HERE, "DESIGN.md")
with open(path) as f:
    s = f.read()
a, b = s.index(BEGIN), s.index(END) + len(END)
with open(path, "w") as f:
    f.write(s[:a] + "\n".join(out) + s[b:])
